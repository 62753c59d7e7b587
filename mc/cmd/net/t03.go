package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"net"
	"net/http"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/continusec/objecthash"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/server/httprest"

	"verifmc/mck"
	"verifmc/ref"
	"verifmc/world"
)

// ------------------------------------------------------- raw HTTP requests

type httpReq struct {
	method, target string
	header         [][2]string
	body           []byte
	// cut says how many bytes of the body are sent before the connection is
	// closed, if not all (-1)
	cut     int
	chunked bool
}

func (r *httpReq) String() string {
	b := fmt.Sprintf("%q", r.body)
	if len(b) > 200 {
		b = b[:200] + "..."
	}
	return fmt.Sprintf("%s %q %q %s", r.method, r.target, r.header, b)
}

type httpResp struct {
	status int
	header http.Header
	body   []byte
}

// rawServer is the REST handler behind a real HTTP server, and one connection
// to it.
type rawServer struct {
	tap   *tap
	hooks *hooks
	p     *pipes
	c     net.Conn
	r     *bufio.Reader
	// second is another connection to the same server
	second *rawServer
}

func newRaw() *rawServer {
	t := &tap{}
	h := &hooks{}
	s := &rawServer{tap: t, hooks: h, p: newPipes()}
	s.second = &rawServer{tap: t, hooks: h, p: s.p}
	go (&http.Server{Handler: h.handler(httprest.CreateRESTHandler(t, nil, nil)), ErrorLog: quiet}).Serve(s.p)
	return s
}

func (s *rawServer) do(q *httpReq) (*httpResp, error) {
	if s.c == nil {
		c, err := s.p.Dial()
		must(err)
		s.c, s.r = c, bufio.NewReader(c)
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: server.example\r\n", q.method, q.target)
	for _, h := range q.header {
		fmt.Fprintf(&b, "%s: %s\r\n", h[0], h[1])
	}
	send := q.body
	if q.cut >= 0 {
		send = send[:q.cut]
	}
	if q.chunked {
		fmt.Fprintf(&b, "Transfer-Encoding: chunked\r\n\r\n")
		step := max(7, len(send)/20000)
		for i := 0; i < len(send); i += step {
			p := send[i:min(i+step, len(send))]
			fmt.Fprintf(&b, "%x\r\n%s\r\n", len(p), p)
		}
		if q.cut < 0 {
			b.WriteString("0\r\n\r\n")
		}
	} else {
		if len(q.body) > 0 || q.method == "POST" || q.method == "PUT" {
			fmt.Fprintf(&b, "Content-Length: %d\r\n", len(q.body))
		}
		b.WriteString("\r\n")
		b.Write(send)
	}
	c := s.c
	written := make(chan struct{})
	go func() {
		c.Write(b.Bytes())
		if q.cut >= 0 {
			c.Close()
		}
		close(written)
	}()
	drop := func() {
		c.Close()
		<-written
		s.c = nil
	}
	if q.cut >= 0 {
		<-written
		s.c = nil
		// what the server makes of it has happened when it is done with the
		// connection: it closes its side
		io.Copy(io.Discard, c)
		return nil, nil
	}
	resp, err := http.ReadResponse(s.r, &http.Request{Method: q.method})
	if err != nil {
		drop()
		return nil, err
	}
	body, err := io.ReadAll(resp.Body)
	if err != nil {
		drop()
		return nil, err
	}
	if resp.Close {
		drop()
		return &httpResp{resp.StatusCode, resp.Header, body}, nil
	}
	select {
	case <-written:
	case <-time.After(20 * time.Second):
		drop()
		return nil, errors.New("the server neither reads the rest of the request nor closes the connection")
	}
	return &httpResp{resp.StatusCode, resp.Header, body}, nil
}

// ------------------------------------- the meaning that the document gives

// meaning is what a request asks for. The zero meaning is that the request is
// wrong, and gets an error without any effect.
type meaning struct {
	req proto.Message
	// may is another acceptable request
	may proto.Message
	// mayFail: it may be refused as well
	mayFail bool
	// matches compares values that the server makes up
	value func(v *pb.LeafData) error
	// form of the answer: "", "raw", "xjson" or "extra" for leaf data
	form string
	// harmless: nothing is promised, but no data may be changed
	harmless bool
}

var (
	reAccount = regexp.MustCompile(`^[0-9]+$`)
	reName    = regexp.MustCompile(`^[0-9a-z_-]+$`)
	reNum     = regexp.MustCompile(`^[0-9]+$`)
	reHex     = regexp.MustCompile(`^[0-9a-f]+$`)
	reStr     = regexp.MustCompile(`^[0-9a-zA-Z_-]+$`)
	reRange   = regexp.MustCompile(`^([0-9]+)-([0-9]+)$`)
)

func number(s string) (int64, bool) {
	if !reNum.MatchString(s) {
		return 0, false
	}
	n, err := strconv.ParseInt(s, 10, 64)
	return n, err == nil
}

func sizeOrHead(s string) (int64, bool) {
	if s == "head" {
		return 0, true
	}
	return number(s)
}

// formats by what follows in the URL.
func formatOf(segs []string, write bool) (string, bool) {
	switch s := strings.Join(segs, "/"); s {
	case "":
		return "raw", len(segs) == 0
	case "xjson":
		return "xjson", true
	case "extra":
		return "extra", true
	case "xjson/redactable":
		return "redactable", write
	}
	return "", false
}

func mapKey(kind, s string) ([]byte, bool) {
	switch kind {
	case "s":
		return []byte(s), reStr.MatchString(s)
	case "h":
		if !reHex.MatchString(s) {
			return nil, false
		}
		b, err := hex.DecodeString(s)
		return b, err == nil
	}
	return nil, false
}

// sameRedactable says whether r is o with every field made redactable.
func sameRedactable(o, r interface{}) error {
	switch o := o.(type) {
	case map[string]interface{}:
		m, ok := r.(map[string]interface{})
		if !ok || len(m) != len(o) {
			return fmt.Errorf("object %v became %v", o, r)
		}
		for k, v := range o {
			p, ok := m[k].([]interface{})
			if !ok || len(p) != 2 {
				return fmt.Errorf("field %q became %v", k, m[k])
			}
			if s, ok := p[0].(string); !ok || len(s) < 16 {
				return fmt.Errorf("field %q has nonce %v", k, p[0])
			}
			if err := sameRedactable(v, p[1]); err != nil {
				return err
			}
		}
	case []interface{}:
		l, ok := r.([]interface{})
		if !ok || len(l) != len(o) {
			return fmt.Errorf("array %v became %v", o, r)
		}
		for i := range o {
			if err := sameRedactable(o[i], l[i]); err != nil {
				return err
			}
		}
	default:
		if o != r {
			return fmt.Errorf("%v became %v", o, r)
		}
	}
	return nil
}

// bodyValue is the leaf data that a body stands for.
func bodyValue(format string, body []byte) (v *pb.LeafData, check func(v *pb.LeafData) error, ok, may bool) {
	switch format {
	case "raw":
		return &pb.LeafData{LeafInput: body}, nil, true, false
	case "xjson":
		var o interface{}
		if json.Unmarshal(body, &o) != nil {
			return nil, nil, false, false
		}
		h, err := objecthash.ObjectHashWithStdRedaction(o)
		if err != nil { // what is redacted in it is malformed
			return nil, nil, false, false
		}
		return &pb.LeafData{LeafInput: h, ExtraData: body, Format: pb.DataFormat_JSON}, nil, true, false
	case "redactable":
		var o interface{}
		if json.Unmarshal(body, &o) != nil {
			return nil, nil, false, false
		}
		if _, err := objecthash.ObjectHashWithStdRedaction(o); err != nil {
			return nil, nil, false, false
		}
		return nil, func(v *pb.LeafData) error {
			var r interface{}
			if err := json.Unmarshal(v.GetExtraData(), &r); err != nil {
				return err
			}
			h, err := objecthash.ObjectHashWithStdRedaction(r)
			must(err)
			if !bytes.Equal(h, v.GetLeafInput()) {
				return fmt.Errorf("leaf input %x is not the object hash of %s", v.GetLeafInput(), v.GetExtraData())
			}
			if v.GetFormat() != pb.DataFormat_JSON {
				return fmt.Errorf("format %v", v.GetFormat())
			}
			return sameRedactable(o, r)
		}, true, false
	case "extra":
		for _, e := range extraBodies {
			if e.body == string(body) {
				return e.want, nil, e.want != nil, e.may
			}
		}
		if v, ok := largeExtra.Load(string(body)); ok {
			return v.(*pb.LeafData), nil, true, false
		}
		panic("mck: body without a meaning: " + string(body))
	}
	return nil, nil, false, false
}

var allBytes = func() (b []byte) {
	for i := 0; i < 256; i++ {
		b = append(b, byte(i))
	}
	return
}()

// extraBodies are bodies of the extra format, with what they stand for, if
// anything; may says that they may also be refused.
var extraBodies = []struct {
	body string
	want *pb.LeafData
	may  bool
}{
	{`{"leaf_input": "` + base64.StdEncoding.EncodeToString([]byte("in")) + `", "extra_data": "` + base64.StdEncoding.EncodeToString([]byte("ex")) + `"}`, world.Leaf("in", "ex"), false},
	{`{"leaf_input": "` + base64.StdEncoding.EncodeToString(allBytes) + `"}`, &pb.LeafData{LeafInput: allBytes}, false},
	{`{"extra_data": "` + base64.StdEncoding.EncodeToString(allBytes) + `","format":1}`, &pb.LeafData{ExtraData: allBytes, Format: 1}, false},
	{`{"leaf_input":"` + base64.StdEncoding.EncodeToString([]byte("j")) + `","extra_data":"` + base64.StdEncoding.EncodeToString([]byte(`{"a":["n",1]}`)) + `","format":1}`, &pb.LeafData{LeafInput: []byte("j"), ExtraData: []byte(`{"a":["n",1]}`), Format: 1}, false},
	// as in histories
	{exBody("raw", "ex"), world.Leaf("raw", "ex"), false},
	{exBody("w", "ex"), world.Leaf("w", "ex"), false},
	{exBody("\xff\x00", "\x00\xff"), world.Leaf("\xff\x00", "\x00\xff"), false},
	{`{"leaf_input":"","extra_data":"","format":0}`, &pb.LeafData{}, false},
	{" {\n}\t", &pb.LeafData{}, false},
	{`{"leaf_input":null,"extra_data":null}`, &pb.LeafData{}, true},
	{`{"leaf_input":"Zm9v","unknown":[1,{}]}`, &pb.LeafData{LeafInput: []byte("foo")}, true},
	{`{"format":"1"}`, &pb.LeafData{Format: 1}, true},
	{`{"leaf\u005finput":"Zm9\u0076"}`, &pb.LeafData{LeafInput: []byte("foo")}, false},
	{body: ``}, {body: `null`}, {body: `[]`}, {body: `"Zm9v"`}, {body: `1`}, {body: `true`}, {body: `{`}, {body: `{"leaf_input":"Zm9v"`},
	{body: `{"leaf_input":"Zm9v"}x`}, {body: `{"leaf_input":"Zm9v"}{}`}, {body: `{"leaf_input":"!!!!"}`}, {body: `{"leaf_input":"Zm8"}`}, {body: `{"leaf_input":"_-__"}`},
	{body: `{"leaf_input":1}`}, {body: `{"leaf_input":{}}`}, {body: `{"leaf_input":true}`}, {body: `{"extra_data":"?"}`}, {body: `{"format":{}}`}, {body: `{"format":1.5}`}, {body: `{"format":99999999999}`},
	{body: `leaf_input=Zm9v`}, {body: "\x00"}, {body: "\xff\xfe{}"}, {body: `{"leaf_input":"Zm9v"` + strings.Repeat(" ", 3000)},
	{body: strings.Repeat("[", 20000)}, {body: strings.Repeat(`{"leaf_input":`, 20000)},
}

// largeExtra has what large bodies of the extra format stand for.
var largeExtra sync.Map

// largeBody is a body of about the size, for the endpoint.
func largeBody(url string, size int) []byte {
	text := strings.Repeat("0123456789abcdef", size/16)
	text += "0123456789abcdef"[:size%16]
	switch {
	case strings.HasSuffix(url, "/extra"):
		in := text[:len(text)/8*3]
		b := []byte(exBody(in, in[1:]))
		largeExtra.Store(string(b), world.Leaf(in, in[1:]))
		return b
	case strings.HasSuffix(url, "/xjson"), strings.HasSuffix(url, "/redactable"):
		return []byte(`{"a":"` + text[8:] + `"}`)
	}
	return []byte(text)
}

func exBody(in, ex string) string {
	return `{"leaf_input":"` + base64.StdEncoding.EncodeToString([]byte(in)) + `","extra_data":"` + base64.StdEncoding.EncodeToString([]byte(ex)) + `"}`
}

// understand gives the meaning of a request by the API's document.
func understand(q *httpReq) *meaning {
	m := plainly(q)
	// encoded slashes may mean slashes, or nothing
	if strings.Contains(strings.ToLower(q.target), "%2f") && m.req != nil {
		m.mayFail = true
	}
	return m
}

func plainly(q *httpReq) *meaning {
	wrong := &meaning{}
	for i := 0; i < len(q.target); i++ {
		if q.target[i] <= ' ' || q.target[i] == 0x7f {
			return wrong
		}
	}
	path := q.target
	if i := strings.IndexByte(path, '?'); i >= 0 {
		path = path[:i]
	}
	path, err := url.PathUnescape(path)
	if err != nil {
		return wrong
	}
	switch q.method {
	case "GET", "POST", "PUT", "DELETE":
	default:
		return &meaning{harmless: true}
	}
	if !strings.HasPrefix(path, "/v2/") { // not about the API
		return &meaning{harmless: true}
	}
	seg := strings.Split(path, "/")
	if len(seg) < 6 || seg[0] != "" || seg[1] != "v2" || seg[2] != "account" || !reAccount.MatchString(seg[3]) || !reName.MatchString(seg[5]) {
		return wrong
	}
	acc := &pb.AccountRef{Id: seg[3]}
	for _, h := range q.header {
		if strings.EqualFold(h[0], "Authorization") {
			if p := strings.TrimSpace(h[1]); strings.HasPrefix(p, "Key ") {
				acc.ApiKey = strings.TrimPrefix(p, "Key ")
			}
			break
		}
	}
	name, rest := seg[5], seg[6:]
	switch seg[4] {
	case "log":
		return understandLog(q, &pb.LogRef{Account: acc, Name: name}, rest)
	case "map":
		if len(rest) >= 2 && rest[0] == "log" {
			switch rest[1] {
			case "mutation":
				return understandLog(q, &pb.LogRef{Account: acc, Name: name, LogType: ltMut}, rest[2:])
			case "treehead":
				return understandLog(q, &pb.LogRef{Account: acc, Name: name, LogType: ltHead}, rest[2:])
			}
			return wrong
		}
		return understandMap(q, &pb.MapRef{Account: acc, Name: name}, rest)
	}
	return wrong
}

func understandLog(q *httpReq, l *pb.LogRef, seg []string) *meaning {
	wrong := &meaning{}
	if len(seg) == 0 {
		return wrong
	}
	switch q.method {
	case "POST":
		f, ok := formatOf(seg[1:], true)
		if seg[0] != "entry" || !ok {
			return wrong
		}
		if l.LogType != ltLog {
			return wrong
		}
		v, check, ok, may := bodyValue(f, q.body)
		if !ok {
			return wrong
		}
		return &meaning{req: &pb.LogAddEntryRequest{Log: l, Value: v}, value: check, mayFail: may}
	case "GET":
		switch {
		case seg[0] == "entry" && len(seg) >= 2:
			n, ok := number(seg[1])
			f, ok2 := formatOf(seg[2:], false)
			if !ok || !ok2 || n == math.MaxInt64 {
				return wrong
			}
			return &meaning{req: &pb.LogFetchEntriesRequest{Log: l, First: n, Last: n + 1}, form: f}
		case seg[0] == "entries" && len(seg) >= 2:
			m := reRange.FindStringSubmatch(seg[1])
			_, ok := formatOf(seg[2:], false)
			if m == nil || !ok {
				return wrong
			}
			a, ok := number(m[1])
			b, ok2 := number(m[2])
			if !ok || !ok2 {
				return wrong
			}
			return &meaning{req: &pb.LogFetchEntriesRequest{Log: l, First: a, Last: b}}
		case seg[0] == "tree" && len(seg) == 2:
			n, ok := sizeOrHead(seg[1])
			if !ok {
				return wrong
			}
			return &meaning{req: &pb.LogTreeHashRequest{Log: l, TreeSize: n}}
		case seg[0] == "tree" && len(seg) == 4 && seg[2] == "consistency":
			n, ok := number(seg[1])
			o, ok2 := number(seg[3])
			if !ok || !ok2 {
				return wrong
			}
			return &meaning{req: &pb.LogConsistencyProofRequest{Log: l, TreeSize: n, FromSize: o}}
		case seg[0] == "tree" && len(seg) == 4 && seg[2] == "inclusion":
			n, ok := number(seg[1])
			i, ok2 := number(seg[3])
			if !ok || !ok2 {
				return wrong
			}
			return &meaning{req: &pb.LogInclusionProofRequest{Log: l, TreeSize: n, LeafIndex: i}}
		case seg[0] == "tree" && len(seg) == 5 && seg[2] == "inclusion":
			n, ok := number(seg[1])
			k, ok2 := mapKey(seg[3], seg[4])
			if !ok || !ok2 {
				return wrong
			}
			if seg[3] == "s" {
				k = ref.Leaf(k)
			}
			return &meaning{req: &pb.LogInclusionProofRequest{Log: l, TreeSize: n, MtlHash: k}}
		}
	}
	return wrong
}

func understandMap(q *httpReq, m *pb.MapRef, seg []string) *meaning {
	wrong := &meaning{}
	switch {
	case q.method == "GET" && len(seg) >= 2 && seg[0] == "tree":
		n, ok := sizeOrHead(seg[1])
		if !ok {
			return wrong
		}
		if len(seg) == 2 {
			return &meaning{req: &pb.MapTreeHashRequest{Map: m, TreeSize: n}}
		}
		if len(seg) < 5 || seg[2] != "key" {
			return wrong
		}
		k, ok := mapKey(seg[3], seg[4])
		f, ok2 := formatOf(seg[5:], false)
		if !ok || !ok2 {
			return wrong
		}
		return &meaning{req: &pb.MapGetValueRequest{Map: m, TreeSize: n, Key: k}, form: f}
	case len(seg) >= 3 && seg[0] == "key":
		k, ok := mapKey(seg[1], seg[2])
		if !ok {
			return wrong
		}
		if q.method == "DELETE" && len(seg) == 3 {
			return &meaning{req: &pb.MapSetValueRequest{Map: m, Mutation: &pb.MapMutation{Action: "delete", Key: k}}}
		}
		f, ok := formatOf(seg[3:], true)
		if !ok || q.method != "PUT" {
			return wrong
		}
		v, check, ok, may := bodyValue(f, q.body)
		if !ok {
			return wrong
		}
		for _, h := range q.header {
			if strings.EqualFold(h[0], "X-Previous-LeafHash") {
				s := strings.TrimSpace(h[1])
				prev, err := hex.DecodeString(s)
				if err != nil {
					return wrong
				}
				// an empty hash may be refused; so may capitals
				return &meaning{req: &pb.MapSetValueRequest{Map: m, Mutation: &pb.MapMutation{Action: "update", Key: k, Value: v, PreviousLeafHash: prev}}, value: check, mayFail: may || !reHex.MatchString(s)}
			}
		}
		return &meaning{req: &pb.MapSetValueRequest{Map: m, Mutation: &pb.MapMutation{Action: "set", Key: k, Value: v}}, value: check, mayFail: may}
	}
	return wrong
}

// --------------------------------------------------------------- answers

// sameJSON compares decoded JSON with a message, field by field as the
// document names them.
func sameJSON(got interface{}, want protoreflect.Message) error {
	m, ok := got.(map[string]interface{})
	if !ok {
		return fmt.Errorf("not an object: %v", got)
	}
	for k := range m {
		if want.Descriptor().Fields().ByName(protoreflect.Name(k)) == nil {
			return fmt.Errorf("unknown field %q", k)
		}
	}
	fs := want.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		g, there := m[string(f.Name())]
		if g == nil {
			there = false
		}
		if f.IsList() {
			l := want.Get(f).List()
			var gl []interface{}
			if there {
				gl, ok = g.([]interface{})
				if !ok {
					return fmt.Errorf("%s is not an array", f.Name())
				}
			}
			if len(gl) != l.Len() {
				return fmt.Errorf("%s has %d elements, not %d", f.Name(), len(gl), l.Len())
			}
			for j := range gl {
				if err := sameValue(f, gl[j], l.Get(j)); err != nil {
					return fmt.Errorf("%s[%d]: %v", f.Name(), j, err)
				}
			}
			continue
		}
		if !there {
			if want.Has(f) {
				return fmt.Errorf("%s is missing", f.Name())
			}
			continue
		}
		if err := sameValue(f, g, want.Get(f)); err != nil {
			return fmt.Errorf("%s: %v", f.Name(), err)
		}
	}
	return nil
}

func sameValue(f protoreflect.FieldDescriptor, g interface{}, v protoreflect.Value) error {
	switch f.Kind() {
	case protoreflect.MessageKind:
		return sameJSON(g, v.Message())
	case protoreflect.BytesKind:
		s, _ := g.(string)
		b, err := base64.StdEncoding.DecodeString(s)
		if err != nil || !bytes.Equal(b, v.Bytes()) {
			return fmt.Errorf("%v is not %x", g, v.Bytes())
		}
	case protoreflect.EnumKind:
		if n, ok := g.(json.Number); !ok || n.String() != fmt.Sprint(v.Enum()) {
			return fmt.Errorf("%v is not %d", g, v.Enum())
		}
	case protoreflect.StringKind:
		if s, ok := g.(string); !ok || s != v.String() {
			return fmt.Errorf("%v is not %q", g, v.String())
		}
	default:
		if n, ok := g.(json.Number); !ok || n.String() != fmt.Sprint(v.Int()) {
			return fmt.Errorf("%v is not %d", g, v.Int())
		}
	}
	return nil
}

func jsonIs(body []byte, want proto.Message) error {
	d := json.NewDecoder(bytes.NewReader(body))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return err
	}
	if _, err := d.Token(); err != io.EOF {
		return fmt.Errorf("more after the JSON document: %v", err)
	}
	return sameJSON(v, want.ProtoReflect())
}

func leafIs(form string, body []byte, v *pb.LeafData) error {
	switch form {
	case "raw":
		if !bytes.Equal(body, v.GetLeafInput()) {
			return fmt.Errorf("body %q is not the leaf input %q", body, v.GetLeafInput())
		}
	case "xjson":
		if !bytes.Equal(body, v.GetExtraData()) {
			return fmt.Errorf("body %q is not the extra data %q", body, v.GetExtraData())
		}
	case "extra":
		if v == nil {
			v = &pb.LeafData{}
		}
		return jsonIs(body, v)
	}
	return nil
}

// answerIs compares an HTTP answer with the service's.
func answerIs(m *meaning, a *httpResp, resp proto.Message, err error) error {
	if err != nil {
		want := 500
		switch status.Code(err) {
		case codes.PermissionDenied:
			want = 401
		case codes.InvalidArgument:
			want = 400
		case codes.NotFound:
			want = 404
		}
		if a.status != want {
			return fmt.Errorf("status %d for %v", a.status, err)
		}
		return nil
	}
	if r, ok := resp.(*pb.LogFetchEntriesResponse); ok && m.form != "" {
		if len(r.Values) != 1 {
			if a.status != 404 {
				return fmt.Errorf("status %d for an entry that is not there", a.status)
			}
			return nil
		}
		if a.status != 200 {
			return fmt.Errorf("status %d", a.status)
		}
		return leafIs(m.form, a.body, r.Values[0])
	}
	if a.status != 200 {
		return fmt.Errorf("status %d", a.status)
	}
	r, ok := resp.(*pb.MapGetValueResponse)
	if !ok {
		return jsonIs(a.body, resp)
	}
	if got := a.header.Values("X-Verified-Treesize"); len(got) != 1 || got[0] != fmt.Sprint(r.TreeSize) {
		return fmt.Errorf("X-Verified-Treesize %q, not %d", got, r.TreeSize)
	}
	proof := map[string]string{}
	for _, h := range a.header.Values("X-Verified-Proof") {
		for _, p := range strings.Split(h, ",") {
			l, x, ok := strings.Cut(strings.TrimSpace(p), "/")
			if !ok || proof[l] != "" {
				return fmt.Errorf("X-Verified-Proof %q", h)
			}
			proof[l] = strings.TrimSuffix(x, ";")
		}
	}
	n := 0
	for i, p := range r.AuditPath {
		if len(p) == 0 {
			continue
		}
		n++
		if proof[fmt.Sprint(i)] != hex.EncodeToString(p) {
			return fmt.Errorf("X-Verified-Proof for level %d is %q, not %x", i, proof[fmt.Sprint(i)], p)
		}
	}
	if n != len(proof) {
		return fmt.Errorf("X-Verified-Proof %v for %d values", proof, n)
	}
	return leafIs(m.form, a.body, r.Value)
}

// redactedValue takes a value that the server made up out of a request.
func redactedValue(req proto.Message) *pb.LeafData {
	switch r := req.(type) {
	case *pb.LogAddEntryRequest:
		v := r.Value
		r.Value = nil
		return v
	case *pb.MapSetValueRequest:
		v := r.Mutation.GetValue()
		if r.Mutation != nil {
			r.Mutation.Value = nil
		}
		return v
	}
	return nil
}

// send makes one request and checks everything about it. Returns what it
// meant, and the HTTP answer.
func (s *rawServer) send(x *mck.X, db *world.Store, svc world.Service, q *httpReq) (*meaning, *httpResp) {
	m := understand(q)
	before := db.Version
	s.tap.reset(func(req proto.Message) (proto.Message, error) { return world.Call(svc, req) })
	a, herr := s.do(q)
	x.C.Transition(1)
	n, got, ir, ie := s.tap.got()
	return judge(x, m, q, a, herr, db, before, n, got, ir, ie)
}

// judge compares what became of a request with its meaning.
func judge(x *mck.X, m *meaning, q *httpReq, a *httpResp, herr error, db *world.Store, before, n int, got, ir proto.Message, ie error) (*meaning, *httpResp) {
	if q.cut >= 0 {
		x.Assert(db.Version == before && n == 0, "%s, cut after %d bytes of its body, was acted on", q, q.cut)
		return m, nil
	}
	x.Assert(herr == nil, "%s is not answered: %v", q, herr)
	x.Assert(n <= 1, "%s reached the service %d times", q, n)
	switch {
	case m.harmless:
		x.Assert(db.Version == before, "%s changed data", q)
	case m.req == nil:
		x.Assert(a.status >= 300, "%s is wrong but is answered %d %.300q", q, a.status, a.body)
		x.Assert(a.status < 500, "%s is wrong but is answered %d, as if it were the server's fault", q, a.status)
		x.Assert(db.Version == before, "%s is wrong but changed data", q)
		x.Assert(n == 0 || ie != nil, "%s is wrong but reached the service as %s", q, world.Text(got))
	case n == 0:
		x.Assert(m.mayFail, "%s should have reached the service as %s but is answered %d", q, world.Text(m.req), a.status)
		x.Assert(a.status >= 400 && a.status < 500, "%s was refused with status %d", q, a.status)
	default:
		if m.value != nil {
			err := m.value(redactedValue(got))
			x.Assert(err == nil, "%s: %v", q, err)
		}
		x.Assert(world.Equal(got, m.req), "%s reached the service as %s of %T, not %s of %T", q, world.Text(got), got, world.Text(m.req), m.req)
		err := answerIs(m, a, ir, ie)
		x.Assert(err == nil, "%s, answered %s %v by the service, is answered %d %q %q: %v", q, world.Text(ir), ie, a.status, a.header, a.body, err)
	}
	return m, a
}

// ----------------------------------------------------------------- the check

// template is a documented endpoint; parts in braces can vary.
type template struct {
	method, url string
}

func templates() []template {
	var rv []template
	for _, p := range []string{"/v2/account/{account}/log/{name}", "/v2/account/{account}/map/{name}/log/mutation", "/v2/account/{account}/map/{name}/log/treehead"} {
		for _, f := range []string{"", "/xjson", "/xjson/redactable", "/extra"} {
			rv = append(rv, template{"POST", p + "/entry" + f}, template{"GET", p + "/entry/{num}" + f}, template{"GET", p + "/entries/{num}-{num2}" + f})
		}
		rv = append(rv, template{"GET", p + "/tree/{num}"}, template{"GET", p + "/tree/head"}, template{"GET", p + "/tree/{num}/consistency/{num2}"},
			template{"GET", p + "/tree/{num}/inclusion/h/{leafhex}"}, template{"GET", p + "/tree/{num}/inclusion/s/{entry}"}, template{"GET", p + "/tree/{num}/inclusion/{num2}"})
	}
	p := "/v2/account/{account}/map/{name}"
	for _, k := range []string{"/key/h/{keyhex}", "/key/s/{key}"} {
		for _, f := range []string{"", "/xjson", "/xjson/redactable", "/extra"} {
			rv = append(rv, template{"PUT", p + k + f}, template{"GET", p + "/tree/{num}" + k + f}, template{"GET", p + "/tree/head" + k + f})
		}
		rv = append(rv, template{"DELETE", p + k})
	}
	return append(rv, template{"GET", p + "/tree/{num}"}, template{"GET", p + "/tree/head"})
}

var quiet = log.New(io.Discard, "", 0)

// the first is the usual one
var partAlts = map[string][]string{
	"account": {"0", "7", "00", "18446744073709551616", "", "a", "-1", "0a", "%30", "0%2f1", "%", "0.0", "०", "+0", "~"},
	"name":    {"l", "other", "a-b_c9", "-", "_", "log", "map", "head", "", "L", "a.b", "%6c", "l%20", "..", ".", "l%2flog%2fmutation", "l;x", "l%00", "é", strings.Repeat("n", 300)},
	"num":     {"6", "0", "1", "5", "7", "06", "00000000000000000000006", "+6", "-1", "", "head", "6.0", "6e0", "0x6", "9223372036854775806", "9223372036854775807", "9223372036854775808", "99999999999999999999999", "%36", "6%20"},
	"num2":    {"1", "0", "2", "6", "7", "01", "+1", "-1", "", "head", "1.5", "9223372036854775807", "9223372036854775808", "%31"},
	"leafhex": {hex.EncodeToString(ref.Leaf([]byte("e1"))), hex.EncodeToString(ref.Leaf([]byte("e0"))), "00", "0", "", "zz", strings.ToUpper(hex.EncodeToString(ref.Leaf([]byte("e1")))), hex.EncodeToString(ref.Leaf([]byte("never"))), strings.Repeat("ab", 400), "%61%62"},
	"entry":   {"e1", "e0", "never", "h", "", "e.1", "e%31", "E1", "a_-Z", "e 1"},
	"keyhex":  {hex.EncodeToString([]byte("k0")), hex.EncodeToString([]byte("k2")), "00", "0", "", "6B30", "zz", "6b3", "ff00", strings.Repeat("ab", 400), "%36b30"},
	"key":     {"k0", "k2", "absent", "K0", "k.0", "", "extra", "xjson", "redactable", "h", "s", "head", "a_-Z9", "k%30", "k 0", "k/0", "é"},
}

var part = regexp.MustCompile(`\{([a-z0-9]+)\}`)

// fill makes a URL; alt gives the alternative of each part.
func (t template) fill(alt func(i int, name string) string) string {
	i := -1
	return part.ReplaceAllStringFunc(t.url, func(s string) string {
		i++
		return alt(i, s[1:len(s)-1])
	})
}

func (t template) parts() []string {
	var rv []string
	for _, m := range part.FindAllStringSubmatch(t.url, -1) {
		rv = append(rv, m[1])
	}
	return rv
}

// a body that is right for the endpoint
func (t template) body() []byte {
	switch {
	case t.method != "PUT" && t.method != "POST":
		return nil
	case strings.HasSuffix(t.url, "/extra"):
		return []byte(extraBodies[0].body)
	}
	return []byte(`{"a":{"b":[1,null]}}`)
}

func rawBodies() [][]byte {
	return [][]byte{nil, []byte("foo"), allBytes, []byte("null"), bytes.Repeat([]byte("0123456789"), 12000), []byte(" "), []byte("\r\n")}
}

var redactedString = `"***REDACTED*** Hash: ` + strings.Repeat("ab", 32) + `"`

func jsonBodies() [][]byte {
	var rv [][]byte
	for _, s := range []string{`{}`, `[]`, `null`, `true`, `""`, `"s"`, `0`, `-1.5`, `1e300`, `{"a":1}`, " {\t\"b\" : 1 ,\n\"a\":[ ]} ", `{"a":{"b":{"c":[1,{"d":null}]}}}`, `[[],[1,"x",{"y":false}],null]`, `{"":0}`, `{"a":"é\u2028\"\\<>&"}`, `{"a":["nonce",1]}`, `{"**REDACTED**":1}`, `"**REDACTED**` + strings.Repeat("ab", 32) + `"`,
		redactedString, `{"a":` + redactedString + `,"b":[` + redactedString + `]}`, `[{"c":{"d":` + redactedString + `}}]`, `"***REDACTED*** Hash: zz"`, `{"a":"***REDACTED*** Hash: "}`, `{"a":"x***REDACTED*** Hash: "}`,
		``, ` `, `{`, `{"a"}`, `{"a":}`, `{a:1}`, `{"a":1,}`, `{"a":1}x`, `{"a":1}{"a":2}`, `nul`, `'a'`, `"\ud800"`, `"\x"`, "\"\x01\"", "\xff", "\xef\xbb\xbf{}", `01`, `1.`, `+1`, `1e999`, `-1e999`, `NaN`, `undefined`, strings.Repeat("[", 50) + strings.Repeat("]", 50), strings.Repeat("[", 100000), strings.Repeat(`{"a":`, 11000) + "1" + strings.Repeat("}", 11000)} {
		rv = append(rv, []byte(s))
	}
	return rv
}

func runREST(c *mck.C) {
	pool := sync.Pool{New: func() interface{} { return newRaw() }}
	base := filled()
	with := func(f func(s *rawServer, db *world.Store, svc world.Service)) {
		s := pool.Get().(*rawServer)
		db := base.Clone()
		f(s, db, world.On(db, policy.Open))
		pool.Put(s)
	}
	note := func(x *mck.X, m *meaning, a *httpResp, q *httpReq) {
		st := 0
		if a != nil {
			st = a.status
		}
		x.C.State("rest", q.method, q.target, fmt.Sprint(q.header), string(q.body), fmt.Sprint(q.cut), fmt.Sprint(st))
		x.C.Eval(m.req != nil, "rest", q.method, q.target)
	}
	ts := templates()
	methods := []string{"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "get", "X"}
	// any two parts of every endpoint's URL
	c.Explore("urls", func(x *mck.X) {
		t := ts[x.Choose(len(ts), "endpoint")]
		ps := t.parts()
		i := x.Choose(len(ps), "part")
		ai := x.Choose(len(partAlts[ps[i]]), ps[i])
		with(func(s *rawServer, db *world.Store, svc world.Service) {
			for j := i; j < len(ps); j++ {
				for aj := range partAlts[ps[j]] {
					if j == i && aj > 0 {
						break
					}
					url := t.fill(func(k int, name string) string {
						switch {
						case k == i:
							return partAlts[name][ai]
						case k == j:
							return partAlts[name][aj]
						}
						return partAlts[name][0]
					})
					q := &httpReq{method: t.method, target: url, body: t.body(), cut: -1}
					m, a := s.send(x, db, svc, q)
					note(x, m, a, q)
				}
			}
		})
		x.C.Trace(1)
	})
	// other methods, queries and the like
	c.Explore("methods", func(x *mck.X) {
		t := ts[x.Choose(len(ts), "endpoint")]
		method := methods[x.Choose(len(methods), "method")]
		suffix := []string{"", "?", "?treesize=1&x=%zz", "/", "//", "/.", "/..", "/x", "%2f", "%20", "%3f", "#", ";"}[x.Choose(13, "suffix")]
		prefix := []string{"", "/", "/x", "/.", "/..", "/v2", "http://server.example", "http://other.example", "x"}[x.Choose(9, "prefix")]
		with(func(s *rawServer, db *world.Store, svc world.Service) {
			q := &httpReq{method: method, target: prefix + t.fill(func(_ int, name string) string { return partAlts[name][0] }) + suffix, body: t.body(), cut: -1}
			if strings.HasPrefix(prefix, "http:") { // an absolute target is as good as its path
				m := understand(&httpReq{method: method, target: strings.TrimPrefix(q.target, prefix), body: q.body, cut: -1})
				s.tap.reset(func(req proto.Message) (proto.Message, error) { return world.Call(svc, req) })
				a, err := s.do(q)
				x.Assert(err == nil, "%s is not answered: %v", q, err)
				n, got, _, _ := s.tap.got()
				if m.req == nil {
					x.Assert(db.Version == 0, "%s changed data", q)
				} else if n == 1 && m.value == nil {
					x.Assert(world.Equal(got, m.req), "%s reached the service as %s", q, world.Text(got))
				}
				note(x, m, a, q)
				return
			}
			m, a := s.send(x, db, svc, q)
			note(x, m, a, q)
		})
		x.C.Trace(1)
	})
	// every single change of a URL
	with2 := ts
	if c.Quick() {
		with2 = nil
		for _, t := range ts {
			if !strings.Contains(t.url, "/log/treehead") {
				with2 = append(with2, t)
			}
		}
	}
	c.Explore("mangled urls", func(x *mck.X) {
		t := with2[x.Choose(len(with2), "endpoint")]
		u := t.fill(func(_ int, name string) string { return partAlts[name][0] })
		i := x.Choose(len(u)+1, "position")
		with(func(s *rawServer, db *world.Store, svc world.Service) {
			try := func(target string) {
				q := &httpReq{method: t.method, target: target, body: t.body(), cut: -1}
				m, a := s.send(x, db, svc, q)
				note(x, m, a, q)
			}
			if i < len(u) {
				try(u[:i] + u[i+1:])
			}
			if i > 0 {
				try(u[:i])
			}
			alphabet := "/a0G-_.%?#~;:+&\xff\x00"
			if !c.Quick() {
				alphabet = string(allBytes[:10]) + string(allBytes[11:]) // a new line would end the request line
			}
			for k := 0; k < len(alphabet); k++ {
				ch := alphabet[k : k+1]
				try(u[:i] + ch + u[i:])
				if i < len(u) && u[i:i+1] != ch {
					try(u[:i] + ch + u[i+1:])
				}
			}
			if i < len(u) {
				try(u[:i] + fmt.Sprintf("%%%02x", u[i]) + u[i+1:])
				try(u[:i] + fmt.Sprintf("%%%02X", u[i]^0x20) + u[i+1:])
				try(u[:i] + fmt.Sprintf("%%25%02x", u[i]) + u[i+1:])
			}
		})
		x.C.Trace(1)
	})
	var writes []template
	for _, t := range ts {
		if (t.method == "POST" || t.method == "PUT") && !strings.Contains(t.url, "/log/treehead") {
			writes = append(writes, t)
		}
	}
	bodies := func(t template) [][]byte {
		switch {
		case strings.HasSuffix(t.url, "/extra"):
			var rv [][]byte
			for _, e := range extraBodies {
				rv = append(rv, []byte(e.body))
			}
			return rv
		case strings.HasSuffix(t.url, "/xjson"), strings.HasSuffix(t.url, "/redactable"):
			return jsonBodies()
		}
		return rawBodies()
	}
	right := hex.EncodeToString(ref.Leaf([]byte("e4"))) // not k0's
	prevs := []string{"none", "", hex.EncodeToString(ref.Leaf(nil)), right, strings.ToUpper(right), " " + right + " ", "0", "zz", "0x00", right + "0", right + ",", "\"" + right + "\"", hex.EncodeToString(ref.Leaf([]byte("f9")))}
	headerNames := []string{"X-Previous-LeafHash", "X-Previous-Leafhash", "x-previous-leafhash"}
	c.Explore("bodies", func(x *mck.X) {
		t := writes[x.Choose(len(writes), "endpoint")]
		bs := bodies(t)
		b := bs[x.Choose(len(bs), "body")]
		q := &httpReq{method: t.method, target: t.fill(func(_ int, name string) string { return partAlts[name][0] }), body: b, cut: -1}
		if t.method == "PUT" {
			if p := prevs[x.Choose(len(prevs), "previous")]; p != "none" {
				q.header = append(q.header, [2]string{headerNames[x.Choose(3, "header name")], p})
			}
		}
		q.chunked = x.Bool("chunked")
		q.header = append(q.header, [2]string{"Content-Type", []string{"", "application/json", "application/x-www-form-urlencoded"}[x.Choose(3, "type")]})
		with(func(s *rawServer, db *world.Store, svc world.Service) {
			m, a := s.send(x, db, svc, q)
			note(x, m, a, q)
		})
		x.C.Trace(1)
	})
	// bodies beyond what buffers and limits commonly hold, and reading them back
	large := []int{1 << 16, 1<<20 - 1, 1 << 20, 1<<20 + 1, 5<<20 + 17}
	if !c.Quick() {
		large = append(large, 1<<22, 1<<24+1, 1<<25+1)
	}
	c.Explore("large bodies", func(x *mck.X) {
		t := writes[x.Choose(len(writes), "endpoint")]
		size := large[x.Choose(len(large), "size")]
		fill := func(_ int, name string) string { return partAlts[name][0] }
		q := &httpReq{method: t.method, target: t.fill(fill), body: largeBody(t.url, size), cut: -1}
		q.chunked = x.Bool("chunked")
		with(func(s *rawServer, db *world.Store, svc world.Service) {
			m, a := s.send(x, db, svc, q)
			x.C.Eval(a.status < 300, "large", t.url, size, q.chunked, a.status)
			if m.req == nil || q.chunked {
				return
			}
			x.Assert(a.status == 200, "%s %s with a body of %d bytes is answered %d", q.method, q.target, len(q.body), a.status)
			get := strings.Replace(q.target, "/entry", "/entry/6", 1)
			if t.method == "PUT" {
				get = strings.Replace(q.target, "/key/", "/tree/head/key/", 1)
			}
			for _, f := range []string{"/xjson/redactable", "/xjson", "/extra"} {
				get = strings.TrimSuffix(get, f)
			}
			for _, f := range []string{"", "/xjson", "/extra"} {
				_, a := s.send(x, db, svc, &httpReq{method: "GET", target: get + f, cut: -1})
				x.Assert(f != "" || a.status == 200, "%s with %d bytes stored is answered %d", get, size, a.status)
				x.C.Eval(a.status < 300, "large", t.url, size, f, a.status)
			}
		})
		x.C.State("large", t.url, size, q.chunked)
		x.C.Trace(1)
	})
	// a connection that breaks in the middle of a body
	c.Explore("cut bodies", func(x *mck.X) {
		t := writes[x.Choose(len(writes), "endpoint")]
		b := t.body()
		if strings.Contains(t.url, "xjson") {
			b = []byte(`1234567890`) // so that its beginnings are JSON too
		}
		q := &httpReq{method: t.method, target: t.fill(func(_ int, name string) string { return partAlts[name][0] }), body: b}
		q.cut = x.Choose(len(b), "cut")
		q.chunked = x.Bool("chunked")
		with(func(s *rawServer, db *world.Store, svc world.Service) {
			m, a := s.send(x, db, svc, q)
			note(x, m, a, q)
		})
		x.C.Trace(1)
	})
	// credentials
	auths := []string{"none", "Key k", "Key two words", "Key  k", "Key k ", "  Key k", "Key", "Key ", "", "k", "Basic k", "Bearer k", "Keyk", "Key\tk", "Key k,Key j", "Digest Key k", "Key *"}
	pols := []*policy.Static{}
	for _, k := range []string{"k", "two words", "*", ""} {
		for _, f := range []string{"*", "a"} {
			pols = append(pols, &policy.Static{Policy: []*pb.ResourceAccount{{Id: "0", Policy: []*pb.AccessPolicy{{ApiKey: k, NameMatch: "*", Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}, AllowedFields: []string{f}}}}}})
		}
	}
	c.Explore("credentials", func(x *mck.X) {
		t := ts[x.Choose(len(ts), "endpoint")]
		q := &httpReq{method: t.method, target: t.fill(func(_ int, name string) string { return partAlts[name][0] }), body: t.body(), cut: -1}
		if a := auths[x.Choose(len(auths), "authorization")]; a != "none" {
			q.header = append(q.header, [2]string{[]string{"Authorization", "authorization"}[x.Choose(2, "header name")], a})
		}
		pol := pols[x.Choose(len(pols), "policy")]
		with(func(s *rawServer, db *world.Store, _ world.Service) {
			m, a := s.send(x, db, world.On(db, pol), q)
			note(x, m, a, q)
		})
		x.C.Trace(1)
	})
	c.Explore("histories", restHistories)
	// two at once: one while the other has come to some point of its way
	more := filledMore()
	c.Explore("two at once", func(x *mck.X) {
		ta := ts[x.Choose(len(ts), "endpoint")]
		part := x.Choose(4, "quarter of the others")
		qa := &httpReq{method: ta.method, target: ta.fill(func(_ int, name string) string { return partAlts[name][0] }), body: ta.body(), cut: -1}
		if x.C.Quick() && strings.Contains(qa.target, "/log/treehead") {
			x.Prune()
		}
		with(func(s *rawServer, _ *world.Store, _ world.Service) {
			points := together(x, s, more, qa, nil, "")
			for j, tb := range ts {
				if j%4 != part || x.C.Quick() && strings.Contains(tb.url, "/log/treehead") {
					continue
				}
				qb := &httpReq{method: tb.method, target: tb.fill(func(_ int, name string) string {
					if name == "account" {
						return "1"
					}
					if name == "name" {
						return "m"
					}
					return partAlts[name][1]
				}), body: otherBody(tb), cut: -1, header: [][2]string{{"Authorization", "Key another"}}}
				for _, p := range points {
					together(x, s, more, qa, qb, p)
				}
			}
			x.C.State("two at once", ta.method, ta.url, part)
			x.C.Sample("two at once", "%s %s, interrupted at %s", ta.method, ta.url, strings.Join(points, ", "))
		})
		x.C.Trace(1)
	})
}

// otherBody is a body for the endpoint that template's body has nothing in common with.
func otherBody(t template) []byte {
	switch {
	case t.method != "POST" && t.method != "PUT":
		return nil
	case strings.HasSuffix(t.url, "/extra"):
		return []byte(extraBodies[1].body)
	case strings.HasSuffix(t.url, "/xjson"), strings.HasSuffix(t.url, "/redactable"):
		return []byte(`{"another":["document",{"of":"another"}],"kind":null}`)
	}
	return []byte("another body")
}

// together sends two requests, the second while the first has come to a point
// of its way, and gives the points of the first.
func together(x *mck.X, s *rawServer, more *world.Store, qa, qb *httpReq, point string) []string {
	db := more.Clone()
	svc := world.On(db, policy.Open)
	var mu sync.Mutex
	var got []*exchange
	s.tap.reset(func(req proto.Message) (proto.Message, error) {
		e := &exchange{req: proto.Clone(req)}
		mu.Lock()
		got = append(got, e)
		mu.Unlock()
		s.hooks.at("service")
		mu.Lock()
		e.resp, e.err = world.Call(svc, e.req)
		mu.Unlock()
		s.hooks.at("service answered")
		mu.Lock()
		e.changed = !proto.Equal(req, e.req)
		mu.Unlock()
		return e.resp, e.err
	})
	var ab *httpResp
	var eb error
	asked := make(chan struct{})
	s.hooks.watch(point, func() {
		ab, eb = s.second.do(qb)
		close(asked)
	})
	aa, ea := s.do(qa)
	seen := s.hooks.stop()
	x.C.Transition(1)
	one := func(q *httpReq, a *httpResp, err error, beside *httpReq) {
		m := understand(q)
		mu.Lock()
		defer mu.Unlock()
		name := *q
		if beside != nil {
			name.header = append(name.header, [2]string{"(with " + beside.String() + " at the point ", point + ")"})
		}
		for _, g := range got {
			x.Assert(!g.changed, "%s changed while it, or another, was being served", &name)
			if m.req != nil && world.Equal(g.req, m.req) || m.may != nil && world.Equal(g.req, m.may) {
				judge(x, m, &name, a, err, db, db.Version, 1, g.req, g.resp, g.err)
				return
			}
			if m.value != nil && sameButValue(g.req, m.req) {
				judge(x, m, &name, a, err, db, db.Version, 1, g.req, g.resp, g.err)
				return
			}
		}
		judge(x, m, &name, a, err, db, db.Version, 0, nil, nil, nil)
	}
	happened := false
	for _, p := range seen {
		happened = happened || p == point
	}
	if !happened {
		one(qa, aa, ea, nil)
		x.Assert(len(got) <= 1, "%s reached the service %d times", qa, len(got))
		return seen
	}
	<-asked
	x.C.Transition(1)
	one(qa, aa, ea, qb)
	one(qb, ab, eb, qa)
	x.Assert(len(got) <= 2, "%s and %s reached the service %d times", qa, qb, len(got))
	return seen
}

// restHistories writes in all formats and reads what was written in all
// formats, against a list of entries and a table of values.
func restHistories(x *mck.X) {
	s := newRaw()
	defer func() {
		if s.c != nil {
			s.c.Close()
		}
		s.p.Close()
	}()
	db := &world.Store{}
	svc := world.On(db, policy.Open)
	do := func(method, target string, body string, header ...[2]string) *httpResp {
		_, a := s.send(x, db, svc, &httpReq{method: method, target: "/v2/account/0/" + target, body: []byte(body), header: header, cut: -1})
		return a
	}
	oh := func(s string) []byte {
		h, err := objecthash.CommonJSONHash([]byte(s))
		must(err)
		return h
	}
	type entry struct{ in, extra string }
	var entries []entry
	seen := map[string]bool{}
	add := func(in, extra string) {
		if !seen[in] {
			seen[in] = true
			entries = append(entries, entry{in, extra})
		}
	}
	vals := map[string]entry{}
	muts := 0
	for i := 0; i < x.C.Pick(3, 4); i++ {
		var a *httpResp
		switch x.Choose(12, "write") {
		case 0:
			a = do("POST", "log/l/entry", "raw")
			add("raw", "")
		case 1:
			a = do("POST", "log/l/entry", "")
			add("", "")
		case 2:
			a = do("POST", "log/l/entry/xjson", `{"a":1,"b":[2]}`)
			add(string(oh(`{"a":1,"b":[2]}`)), `{"a":1,"b":[2]}`)
		case 3: // the same document
			a = do("POST", "log/l/entry/xjson", ` {"b": [2.0],"a":1 }`)
			add(string(oh(`{"a":1,"b":[2]}`)), ` {"b": [2.0],"a":1 }`)
		case 4: // the same entry as with raw
			a = do("POST", "log/l/entry/extra", exBody("raw", "ex"))
			add("raw", "ex")
		case 5:
			a = do("POST", "log/l/entry/extra", exBody("\xff\x00", "\x00\xff"))
			add("\xff\x00", "\x00\xff")
		case 6:
			a = do("PUT", "map/l/key/s/foo", "v")
			vals["foo"] = entry{"v", ""}
			muts++
		case 7:
			a = do("PUT", "map/l/key/h/666f6f/xjson", `{"x":"y"}`)
			vals["foo"] = entry{string(oh(`{"x":"y"}`)), `{"x":"y"}`}
			muts++
		case 8:
			a = do("PUT", "map/l/key/h/ff/extra", exBody("w", "ex"))
			vals["\xff"] = entry{"w", "ex"}
			muts++
		case 9:
			a = do("DELETE", "map/l/key/h/666f6f", "")
			delete(vals, "foo")
			muts++
		case 10:
			a = do("PUT", "map/l/key/s/foo/xjson", `[]`, [2]string{"X-Previous-LeafHash", hex.EncodeToString(ref.Leaf([]byte("v")))})
			if vals["foo"].in == "v" {
				vals["foo"] = entry{string(oh(`[]`)), `[]`}
			}
			muts++
		case 11:
			a = do("PUT", "map/l/key/s/foo", "u", [2]string{"X-Previous-LeafHash", hex.EncodeToString(ref.Leaf(nil))})
			if vals["foo"].in == "" {
				vals["foo"] = entry{"u", ""}
			}
			muts++
		}
		x.Assert(a.status == 200, "write %d is answered %d", i, a.status)
	}
	extra := func(e entry) *pb.LeafData { return world.Leaf(e.in, e.extra) }
	withoutFormat := func(body []byte) []byte { return bytes.Replace(body, []byte(`,"format":1`), nil, 1) }
	for i, e := range entries {
		a := do("GET", fmt.Sprintf("log/l/entry/%d", i), "")
		x.Assert(a.status == 200 && string(a.body) == e.in, "entry %d is %q, not %q", i, a.body, e.in)
		a = do("GET", fmt.Sprintf("log/l/entry/%d/xjson", i), "")
		x.Assert(a.status == 200 && string(a.body) == e.extra, "extra data %d is %q, not %q", i, a.body, e.extra)
		a = do("GET", fmt.Sprintf("log/l/entry/%d/extra", i), "")
		err := jsonIs(withoutFormat(a.body), extra(e))
		x.Assert(a.status == 200 && err == nil, "entry %d is %q: %v", i, a.body, err)
	}
	a := do("GET", fmt.Sprintf("log/l/entry/%d", len(entries)), "")
	x.Assert(a.status >= 400 && a.status < 500, "entry %d is answered %d %q", len(entries), a.status, a.body)
	for _, k := range [][2]string{{"s/foo", "foo"}, {"h/666f6f", "foo"}, {"h/ff", "\xff"}, {"s/none", "none"}} {
		for _, size := range []string{"head", fmt.Sprint(muts)} {
			e := vals[k[1]]
			a := do("GET", "map/l/tree/"+size+"/key/"+k[0], "")
			x.Assert(a.status == 200 && string(a.body) == e.in, "value of %s is %q, not %q", k[0], a.body, e.in)
			a = do("GET", "map/l/tree/"+size+"/key/"+k[0]+"/xjson", "")
			x.Assert(a.status == 200 && string(a.body) == e.extra, "extra data of %s is %q, not %q", k[0], a.body, e.extra)
			x.Assert(a.header.Get("X-Verified-Treesize") == fmt.Sprint(muts), "tree size %q after %d mutations", a.header.Get("X-Verified-Treesize"), muts)
			a = do("GET", "map/l/tree/"+size+"/key/"+k[0]+"/extra", "")
			err := jsonIs(withoutFormat(a.body), extra(e))
			x.Assert(a.status == 200 && err == nil, "value of %s is %q: %v", k[0], a.body, err)
		}
	}
	x.C.Trace(1)
	x.C.State("history", fmt.Sprint(entries), fmt.Sprint(vals), fmt.Sprint(muts))
}

func init() {
	mck.Register(mck.Check{
		ID:   "T03",
		Rule: "a request means what the API document says, read independently of the code: it reaches the service as exactly that request, once, and the answer is the service's answer with the documented status, body and headers; any other request gets an error and has no effect",
		Assumptions: []string{
			"percent-encoded URLs mean the same as decoded ones, and queries mean nothing",
			"where the document is silent (a format given as a string, an empty previous hash, unknown JSON fields) a request may be refused or served",
			"errors are 401 for permission denied, 400 for invalid, 404 for not found, and 500 for others, as the REST client takes them",
		},
		Budget: 200 * time.Second,
		Run:    runREST,
	})
}

// sameButValue compares requests without the value that the server makes up.
func sameButValue(got, want proto.Message) bool {
	got = proto.Clone(got)
	redactedValue(got)
	return world.Equal(got, want)
}
