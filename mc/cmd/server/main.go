// server: checks of the server program, run as it is.
package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/server/grpc"
	"github.com/continusec/verifiabledatastructures/server/httprest"
	"github.com/continusec/verifiabledatastructures/storage/memory"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"

	"verifmc/mck"
	"verifmc/ref"
	"verifmc/world"
)

var ctx = context.Background()

func must(err error) {
	if err != nil {
		panic("mck: " + err.Error())
	}
}

func main() { mck.Main() }

func init() {
	mck.Register(mck.Check{ID: "V01", Run: runV01, Level: "fault_enumeration", Budget: 110 * time.Second, ThoroughBudget: 600 * time.Second, MaxRun: 120 * time.Second,
		Rule:        "the server program, run with every configuration of a product (REST and gRPC on or off, encrypted or not, with good, missing, mismatched and malformed certificates, usable and unusable addresses, absolute and relative database paths, malformed files); with every policy of a menu times every operation over both protocols; and every sequence of up to 3 (thorough: 4) writes over either protocol, killed by each of three signals after each acknowledgement and restarted",
		Assumptions: []string{"what an operation means is what the embedded service does (other properties); the process is killed, not the machine (D02)", "the program listens within 20 s of its start"}})
}

var serial atomic.Int64

// freeAddr is an address nothing listens on: each is used once, and has a
// loopback address of its own and a port that is never given to clients. It
// is not tried out: a process being started could hold it open for a while.
func freeAddr() string {
	n := int(serial.Add(1))
	pid := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d:%d", 20+pid%200, 1+n/250%250, 1+n%250, 10000+(n+pid/200*977)%20000)
}

func listens(network, addr string) bool {
	c, err := net.DialTimeout(network, addr, 5*time.Second)
	if err != nil {
		return false
	}
	c.Close()
	return true
}

// identity is a self-signed certificate.
type identity struct{ cert, key string }

func newIdentity(addrs ...string) *identity {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	n := serial.Add(1)
	t := &x509.Certificate{SerialNumber: big.NewInt(n), Subject: pkix.Name{CommonName: fmt.Sprint("localhost", n)}, DNSNames: []string{"localhost"}, NotBefore: time.Now().Add(-48 * time.Hour), NotAfter: time.Now().Add(48 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	for _, a := range addrs {
		if h, _, err := net.SplitHostPort(a); err == nil {
			t.IPAddresses = append(t.IPAddresses, net.ParseIP(h))
		}
	}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	must(err)
	kd, err := x509.MarshalPKCS8PrivateKey(k)
	must(err)
	p := filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("id%d", n))
	must(os.WriteFile(p+".crt", pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o600))
	must(os.WriteFile(p+".key", pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: kd}), 0o600))
	return &identity{p + ".crt", p + ".key"}
}

var other = sync.OnceValue(func() *identity { return newIdentity() })

// proc is a running server program.
type proc struct {
	cmd  *exec.Cmd
	out  bytes.Buffer
	done chan struct{}
	err  error
}

func scratch(x *mck.X) string {
	d, err := os.MkdirTemp(os.Getenv("VERIF_FAST"), "srv")
	must(err)
	x.Defer(func() { os.RemoveAll(d) })
	return d
}

// launch starts the program in a directory.
func launch(x *mck.X, dir string, args ...string) *proc {
	p := &proc{done: make(chan struct{})}
	p.cmd = exec.Command(filepath.Join(os.Getenv("VERIF_SCRATCH"), "vdbserver"), args...)
	p.cmd.Dir = dir
	p.cmd.Env = []string{"PATH=" + dir, "HOME=" + dir} // it opens a browser if it finds one
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.out
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(p.cmd.Start())
	go func() {
		p.err = p.cmd.Wait()
		close(p.done)
	}()
	x.Defer(func() { p.kill(syscall.SIGKILL) })
	return p
}

func (p *proc) kill(s syscall.Signal) {
	p.cmd.Process.Signal(s)
	select {
	case <-p.done:
	case <-time.After(20 * time.Second):
		p.cmd.Process.Kill()
		<-p.done
	}
}

func (p *proc) exited() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// ends waits for the program to end by itself.
func (p *proc) ends() bool {
	select {
	case <-p.done:
		return true
	case <-time.After(20 * time.Second):
		return false
	}
}

// up waits until the program listens everywhere it should.
func (p *proc) up(addrs ...[2]string) bool {
	for t := time.Now(); time.Since(t) < 20*time.Second; time.Sleep(2 * time.Millisecond) {
		n := 0
		for _, a := range addrs {
			if listens(a[0], a[1]) {
				n++
			}
		}
		if n == len(addrs) {
			return !p.exited()
		}
		if p.exited() {
			return false
		}
	}
	return false
}

func writeConf(dir string, conf *pb.ServerConfig) string {
	b, err := prototext.MarshalOptions{Multiline: true}.Marshal(conf)
	must(err)
	p := filepath.Join(dir, "conf")
	must(os.WriteFile(p, b, 0o600))
	return p
}

// restClient is a client of a REST server; with a certificate, it trusts
// only that.
func restClient(x *mck.X, addr, cert string) world.Service {
	tr := &http.Transport{}
	scheme := "http"
	if cert != "" {
		scheme = "https"
		tr.TLSClientConfig = &tls.Config{RootCAs: pool(cert), ServerName: "localhost"}
	}
	x.Defer(tr.CloseIdleConnections)
	s, err := (&httprest.Client{BaseURL: scheme + "://" + addr, HTTPClient: &http.Client{Transport: tr, Timeout: 60 * time.Second}}).Dial()
	must(err)
	return s
}

func pool(cert string) *x509.CertPool {
	b, err := os.ReadFile(cert)
	must(err)
	cp := x509.NewCertPool()
	if !cp.AppendCertsFromPEM(b) {
		panic("mck: no certificate")
	}
	return cp
}

func grpcClient(network, addr string) world.Service {
	if network == "unix" {
		addr = "unix://" + addr
	}
	s, err := (&grpc.Client{Address: addr, NoGrpcSecurity: true}).Dial()
	must(err)
	return s
}

// tlsWith says whether a server there presents a certificate.
func tlsWith(addr, cert string) error {
	c, err := tls.DialWithDialer(&net.Dialer{Timeout: 20 * time.Second}, "tcp", addr, &tls.Config{RootCAs: pool(cert), ServerName: "localhost", NextProtos: []string{"h2", "http/1.1"}})
	if err != nil {
		return err
	}
	return c.Close()
}

var everything = []*pb.ResourceAccount{{Id: "1234", Policy: []*pb.AccessPolicy{{ApiKey: "secret", NameMatch: "*", AllowedFields: []string{"*"}, Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}}}}}

func secretAcc() *pb.AccountRef { return &pb.AccountRef{Id: "1234", ApiKey: "secret"} }

func runV01(c *mck.C) {
	other()
	c.Explore("configurations", configurations)
	c.Explore("malformed configurations", malformed)
	c.Explore("policies", policies)
	c.Explore("crash points", func(x *mck.X) { crashPoints(x, c.Pick(2, 3), len(writes)) })
	c.Explore("crash points in longer histories", func(x *mck.X) { crashPoints(x, c.Pick(3, 4), 3) })
	c.ExploreSerial("without a configuration", demo)
}

func configurations(x *mck.X) {
	dir := scratch(x)
	conf := &pb.ServerConfig{Accounts: everything, BoltDbPath: dir}
	conf.RestServer = x.Bool("REST")
	conf.GrpcServer = x.Bool("gRPC")
	rest, rpc := freeAddr(), freeAddr()
	conf.RestListenBind = rest
	network := []string{"tcp", "tcp4", "unix"}[x.Choose(3, "gRPC network")]
	if network == "unix" {
		rpc = filepath.Join(dir, "socket")
	}
	conf.GrpcListenProtocol, conf.GrpcListenBind = network, rpc
	ours := newIdentity(rest, rpc)
	x.Defer(func() { os.Remove(ours.cert); os.Remove(ours.key) })
	security := x.Choose(6, "security")
	ok := true // it can serve like this
	switch security {
	case 0: // without certificates
		conf.InsecureServerForTesting = true
	case 1:
		conf.InsecureServerForTesting = true
		conf.ServerCertPath, conf.ServerKeyPath = ours.cert, ours.key
	case 2:
		conf.ServerCertPath, conf.ServerKeyPath = ours.cert, ours.key
	case 3:
		ok = false
	case 4:
		conf.ServerCertPath, conf.ServerKeyPath = filepath.Join(dir, "none.crt"), ours.key
		ok = false
	case 5:
		conf.ServerCertPath, conf.ServerKeyPath = ours.cert, other().key
		ok = false
	}
	addresses := "usable"
	switch x.Choose(4, "addresses") {
	case 1: // in use
		addresses = "in use"
		l, err := net.Listen("tcp4", rest)
		must(err)
		x.Defer(func() { l.Close() })
		ok = ok && !conf.RestServer
	case 2:
		addresses = "in use"
		l, err := net.Listen(network, rpc)
		must(err)
		x.Defer(func() { l.Close() })
		ok = ok && !conf.GrpcServer
	case 3: // none at all
		addresses = "malformed"
		conf.RestListenBind, conf.GrpcListenBind = "256.0.0.1:bad", "/none/socket:bad"
		ok = false
	}
	if !conf.RestServer && !conf.GrpcServer {
		if security > 0 || addresses != "usable" || network != "tcp" {
			x.Prune()
		}
		ok = true
	}
	if network == "tcp4" && (security > 0 || addresses != "usable") {
		x.Prune()
	}
	p := launch(x, dir, writeConf(dir, conf))
	x.C.Trace(1)
	x.C.State("conf", world.Text(&pb.ServerConfig{RestServer: conf.RestServer, GrpcServer: conf.GrpcServer, GrpcListenProtocol: network}).String(), security, addresses)
	what := fmt.Sprintf("with REST %v, gRPC %v over %s, security %d, addresses %s", conf.RestServer, conf.GrpcServer, network, security, addresses)
	if !ok {
		x.Assert(p.ends(), "%s, the server goes on although it can't serve as it should: %s", what, p.out.String())
		x.Assert(p.err != nil, "%s, the server ends without an error: %s", what, p.out.String())
		return
	}
	var addrs [][2]string
	if conf.RestServer {
		addrs = append(addrs, [2]string{"tcp4", rest})
	}
	if conf.GrpcServer {
		addrs = append(addrs, [2]string{network, rpc})
	}
	if len(addrs) == 0 {
		// there is nothing to wait for
		time.Sleep(100 * time.Millisecond)
		x.Assert(!listens("tcp4", rest) && !listens(network, rpc), "%s, the server listens", what)
		return
	}
	x.Assert(p.up(addrs...), "%s, the server does not listen, or ends: %v", what, p.err)
	if addresses == "usable" {
		x.Assert(conf.RestServer || !listens("tcp4", rest), "%s, the server listens for REST", what)
		x.Assert(conf.GrpcServer || !listens(network, rpc), "%s, the server listens for gRPC", what)
	}
	secure := !conf.InsecureServerForTesting
	var services []world.Service
	if conf.RestServer {
		if secure {
			x.Assert(tlsWith(rest, other().cert) != nil, "%s, the REST server presents another certificate", what)
			services = append(services, restClient(x, rest, ours.cert))
			_, err := restClient(x, rest, "").LogTreeHash(ctx, &pb.LogTreeHashRequest{Log: &pb.LogRef{Account: secretAcc(), Name: "l"}})
			x.Assert(err != nil, "%s, the REST server answers without encryption", what)
		} else {
			services = append(services, restClient(x, rest, ""))
		}
	}
	if conf.GrpcServer {
		if secure {
			if network != "unix" {
				err := tlsWith(rpc, ours.cert)
				x.Assert(err == nil, "%s, the gRPC server: %v", what, err)
				x.Assert(tlsWith(rpc, other().cert) != nil, "%s, the gRPC server presents another certificate", what)
			}
			_, err := grpcClient(network, rpc).LogTreeHash(ctx, &pb.LogTreeHashRequest{Log: &pb.LogRef{Account: secretAcc(), Name: "l"}})
			x.Assert(err != nil, "%s, the gRPC server answers without encryption", what)
			services = append(services, secureGRPC(network, rpc, ours.cert))
		} else {
			services = append(services, grpcClient(network, rpc))
		}
	}
	// each adds something, and each sees it all
	l := &pb.LogRef{Account: secretAcc(), Name: "l"}
	var want []*pb.LeafData
	for i, s := range services {
		v := world.Leaf(fmt.Sprint("entry ", i), "x")
		_, err := s.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: l, Value: v})
		x.Assert(err == nil, "%s, adding an entry: %v", what, err)
		want = append(want, v)
		for _, s := range services {
			es, err := s.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: l})
			x.Assert(err == nil && len(es.GetValues()) == len(want), "%s, %d entries are read as %v %v", what, len(want), es, err)
			for i := range want {
				x.Assert(world.SameLeaf(es.Values[i], want[i]), "%s, entry %d is read as %v", what, i, es.Values[i])
			}
		}
		x.C.Transition(1)
	}
	x.Assert(!p.exited(), "%s, the server ended: %v", what, p.err)
	fs, _ := filepath.Glob(filepath.Join(dir, "*"))
	x.Assert(len(fs) >= 2, "%s, the database is not where it should be", what)
}

func secureGRPC(network, addr, cert string) world.Service {
	b, err := os.ReadFile(cert)
	must(err)
	if network == "unix" {
		addr = "unix://" + addr
	}
	s, err := (&grpc.Client{Address: addr, CertDer: b}).Dial()
	must(err)
	return s
}

func malformed(x *mck.X) {
	dir := scratch(x)
	good, err := os.ReadFile(writeConf(dir, &pb.ServerConfig{Accounts: everything, BoltDbPath: dir, RestServer: true, RestListenBind: freeAddr(), InsecureServerForTesting: true}))
	must(err)
	path := filepath.Join(dir, "other")
	bad := []string{"no_such_field: 1\n", "rest_server: maybe\n", "accounts: <", "}", "accounts: < policy: < permissions: PERM_NONE_SUCH > >\n", "rest_server: true\nrest_server: false\n", "\x00", "missing", "directory"}
	k := x.Choose(2*len(bad), "how")
	switch b := bad[k%len(bad)]; {
	case b == "missing":
		path = filepath.Join(dir, "missing")
	case b == "directory":
		path = dir
	case k < len(bad):
		must(os.WriteFile(path, append(append([]byte{}, good...), b...), 0o600))
	default:
		must(os.WriteFile(path, append([]byte(b), good...), 0o600))
	}
	p := launch(x, dir, path)
	x.Assert(p.ends() && p.err != nil, "with a configuration that is wrong (%q), the server goes on: %s", bad[k%len(bad)], p.out.String())
	x.C.Eval(true, "malformed", k)
	x.C.Trace(1)
}

// start runs a server with both protocols.
func start(x *mck.X, dir string, conf *pb.ServerConfig) (p *proc, rest, rpc world.Service) {
	conf.RestServer, conf.GrpcServer, conf.InsecureServerForTesting = true, true, true
	conf.RestListenBind = freeAddr()
	conf.GrpcListenProtocol, conf.GrpcListenBind = "tcp4", freeAddr()
	p = launch(x, dir, writeConf(dir, conf))
	x.Assert(p.up([2]string{"tcp4", conf.RestListenBind}, [2]string{"tcp4", conf.GrpcListenBind}), "the server does not listen, or ends: %v", p.err)
	return p, restClient(x, conf.RestListenBind, ""), grpcClient("tcp4", conf.GrpcListenBind)
}

var redactable = sync.OnceValue(func() *pb.LeafData {
	ld, err := verifiable.CreateRedactableJSONLeafData([]byte(`{"a":1,"b":"two"}`))
	must(err)
	return ld
})

// accountMenu has the accounts of configurations; "" has no name.
var accountMenu = [][]string{nil, {"8"}, {"7"}, {"0", "0 for reading"}, {"0 for reading", "7", "0"}, {""}}

func policyMenu() (rv [][]*pb.AccessPolicy) {
	r := func(key, name string, fields []string, perms ...pb.Permission) *pb.AccessPolicy {
		return &pb.AccessPolicy{ApiKey: key, NameMatch: name, AllowedFields: fields, Permissions: perms}
	}
	all := []string{"*"}
	rv = append(rv, nil)
	for p := 0; p < len(pb.Permission_name); p++ {
		rv = append(rv, []*pb.AccessPolicy{r("k", "*", all, pb.Permission(p))})
	}
	any := pb.Permission_PERM_ALL_PERMISSIONS
	rv = append(rv,
		[]*pb.AccessPolicy{r("*", "obj", all, any)},
		[]*pb.AccessPolicy{r("", "*", all, any)},
		[]*pb.AccessPolicy{r("k", "ob?", []string{"a"}, any)},
		[]*pb.AccessPolicy{r("k", "*", nil, any)},
		[]*pb.AccessPolicy{r("k", "other", all, any), r("*", "obj", []string{"b"}, pb.Permission_PERM_LOG_READ_ENTRY, pb.Permission_PERM_MAP_GET_VALUE)},
	)
	return rv
}

func policies(x *mck.X) {
	dir := scratch(x)
	admin := &pb.AccessPolicy{ApiKey: "admin", NameMatch: "*", AllowedFields: []string{"*"}, Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}}
	seven := &pb.ResourceAccount{Id: "7", Policy: []*pb.AccessPolicy{{ApiKey: "seven", NameMatch: "*", Permissions: []pb.Permission{pb.Permission_PERM_LOG_RAW_ADD}}}}
	menu := policyMenu()
	var pol []*pb.ResourceAccount
	switch c := x.Choose(len(menu)+len(accountMenu), "policy"); {
	case c < len(menu):
		pol = []*pb.ResourceAccount{{Id: "0", Policy: append([]*pb.AccessPolicy{admin}, menu[c]...)}, seven}
	default:
		for _, id := range accountMenu[c-len(menu)] {
			switch id {
			case "7":
				pol = append(pol, seven)
			case "0":
				pol = append(pol, &pb.ResourceAccount{Id: id, Policy: []*pb.AccessPolicy{admin}})
			case "0 for reading":
				pol = append(pol, &pb.ResourceAccount{Id: "0", Policy: []*pb.AccessPolicy{{ApiKey: "k", NameMatch: "*", AllowedFields: []string{"*"}, Permissions: []pb.Permission{pb.Permission_PERM_LOG_READ_ENTRY, pb.Permission_PERM_MAP_GET_VALUE}}}})
			case "8":
				pol = append(pol, &pb.ResourceAccount{Id: "8"})
			default:
				pol = append(pol, &pb.ResourceAccount{Policy: []*pb.AccessPolicy{admin}})
			}
		}
	}
	_, rest, rpc := start(x, dir, &pb.ServerConfig{Accounts: pol, BoltDbPath: dir})
	here := world.On(&memory.TransientStorage{}, &policy.Static{Policy: pol})
	m := func(a *pb.AccountRef, n string) *pb.MapRef { return &pb.MapRef{Account: a, Name: n} }
	{
		a := &pb.AccountRef{Id: "0", ApiKey: "admin"}
		for _, n := range []string{"obj", "other"} {
			for _, req := range []proto.Message{
				&pb.LogAddEntryRequest{Log: &pb.LogRef{Account: a, Name: n}, Value: redactable()},
				&pb.LogAddEntryRequest{Log: &pb.LogRef{Account: a, Name: n}, Value: world.Leaf("plain", "")},
				&pb.MapSetValueRequest{Map: m(a, n), Mutation: &pb.MapMutation{Action: "set", Key: []byte("k"), Value: redactable()}},
				&pb.MapSetValueRequest{Map: m(a, n), Mutation: &pb.MapMutation{Action: "set", Key: []byte("k2"), Value: world.Leaf("plain", "")}},
			} {
				_, want := world.Call(here, proto.Clone(req))
				_, err := world.Call(rpc, req)
				x.Assert(status.Code(err) == status.Code(want), "with policy %v, the administrator asks for %v: %v, want %v", pol, world.Text(req), err, want)
			}
		}
	}
	for _, id := range []string{"0", "7", "8"} {
		for _, key := range []string{"k", "", "seven", "*", "admin"} {
			a := &pb.AccountRef{Id: id, ApiKey: key}
			for _, n := range []string{"obj", "other"} {
				var reqs []proto.Message
				for t := pb.LogType(0); t < 3; t++ {
					l := &pb.LogRef{Account: a, Name: n, LogType: t}
					reqs = append(reqs, &pb.LogFetchEntriesRequest{Log: l}, &pb.LogTreeHashRequest{Log: l}, &pb.LogInclusionProofRequest{Log: l, LeafIndex: 1}, &pb.LogConsistencyProofRequest{Log: l, FromSize: 1})
				}
				reqs = append(reqs, &pb.MapTreeHashRequest{Map: m(a, n)}, &pb.MapGetValueRequest{Map: m(a, n), Key: []byte("k")},
					&pb.LogAddEntryRequest{Log: &pb.LogRef{Account: a, Name: n}, Value: world.Leaf("plain", "")},
					&pb.MapSetValueRequest{Map: m(a, n), Mutation: &pb.MapMutation{Action: "set", Key: []byte("k"), Value: redactable()}})
				for _, req := range reqs {
					for i, s := range []world.Service{rest, rpc} {
						want, wantErr := world.Call(here, proto.Clone(req))
						got, err := world.Call(s, proto.Clone(req))
						name := []string{"REST", "gRPC"}[i]
						wc := status.Code(wantErr)
						switch {
						case i == 1, wc == codes.OK, wc == codes.PermissionDenied, wc == codes.InvalidArgument, wc == codes.NotFound:
							x.Assert(status.Code(err) == wc, "with policy %v, %T %s over %s: %v, want %v", pol, req, world.Text(req), name, err, wantErr)
						default:
							x.Assert(err != nil, "with policy %v, %T %s over %s succeeds, want %v", pol, req, world.Text(req), name, wantErr)
						}
						if err != nil {
							continue
						}
						switch w := want.(type) {
						case *pb.MapGetValueResponse:
							g := got.(*pb.MapGetValueResponse)
							x.Assert(world.SameLeaf(g.Value, w.Value), "with policy %v, %s over %s gives %v, want %v", pol, world.Text(req), name, world.Text(g.Value), world.Text(w.Value))
						case *pb.LogFetchEntriesResponse:
							g := got.(*pb.LogFetchEntriesResponse)
							x.Assert(len(g.Values) == len(w.Values), "with policy %v, %s over %s gives %d entries, want %d", pol, world.Text(req), name, len(g.Values), len(w.Values))
							for i := range w.Values {
								if req.(*pb.LogFetchEntriesRequest).Log.LogType == pb.LogType_STRUCT_TYPE_LOG {
									x.Assert(world.SameLeaf(g.Values[i], w.Values[i]), "with policy %v, %s over %s gives %s, want %s", pol, world.Text(req), name, world.Text(g.Values[i]), world.Text(w.Values[i]))
								}
							}
						}
						x.C.Transition(1)
						x.C.Eval(true, "request", name, id, key, n, world.Text(req).String(), wc)
					}
				}
			}
		}
	}
	x.C.Trace(1)
}

// observe prints all that can be seen.
func observe(s world.Service) string {
	var b strings.Builder
	p := func(req proto.Message) proto.Message {
		resp, err := world.Call(s, req)
		if err != nil && status.Code(err) != codes.InvalidArgument {
			fmt.Fprintf(&b, "%s: %v\n", world.Text(req), err)
		} else {
			fmt.Fprintf(&b, "%s: %s\n", world.Text(req), world.Text(resp))
		}
		return resp
	}
	for _, n := range []string{"l", "m"} {
		for t := pb.LogType(0); t < 3; t++ {
			l := &pb.LogRef{Account: secretAcc(), Name: n, LogType: t}
			h, _ := p(&pb.LogTreeHashRequest{Log: l}).(*pb.LogTreeHashResponse)
			p(&pb.LogFetchEntriesRequest{Log: l})
			for i := int64(1); i <= h.GetTreeSize(); i++ {
				p(&pb.LogTreeHashRequest{Log: l, TreeSize: i})
				p(&pb.LogInclusionProofRequest{Log: l, LeafIndex: i - 1, TreeSize: h.GetTreeSize()})
			}
		}
	}
	m := &pb.MapRef{Account: secretAcc(), Name: "m"}
	h, _ := p(&pb.MapTreeHashRequest{Map: m}).(*pb.MapTreeHashResponse)
	for i := int64(1); i <= h.GetMutationLog().GetTreeSize(); i++ {
		p(&pb.MapTreeHashRequest{Map: m, TreeSize: i})
		for _, k := range []string{"k", "absent"} {
			r, _ := p(&pb.MapGetValueRequest{Map: m, Key: []byte(k), TreeSize: i}).(*pb.MapGetValueResponse)
			fmt.Fprintln(&b, world.Str(r.GetValue()))
		}
	}
	return b.String()
}

type write struct {
	name string
	grpc bool
	req  func(i int) proto.Message
}

var writes = []write{
	{"add over REST", false, func(i int) proto.Message {
		return &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: secretAcc(), Name: "l"}, Value: world.Leaf(fmt.Sprint("entry ", i), "x")}
	}},
	{"add over gRPC", true, func(i int) proto.Message {
		return &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: secretAcc(), Name: "l"}, Value: world.Leaf(fmt.Sprint("entry ", i), "x")}
	}},
	{"set over gRPC", true, func(i int) proto.Message {
		return &pb.MapSetValueRequest{Map: &pb.MapRef{Account: secretAcc(), Name: "m"}, Mutation: &pb.MapMutation{Action: "set", Key: []byte("k"), Value: world.Leaf(fmt.Sprint("value ", i), "")}}
	}},
	{"delete over REST", false, func(i int) proto.Message {
		return &pb.MapSetValueRequest{Map: &pb.MapRef{Account: secretAcc(), Name: "m"}, Mutation: &pb.MapMutation{Action: "delete", Key: []byte("k")}}
	}},
}

// crashPoints kills the server after each of some acknowledgements.
func crashPoints(x *mck.X, n, menu int) {
	dir := scratch(x)
	sig := []syscall.Signal{syscall.SIGKILL, syscall.SIGTERM, syscall.SIGINT}[x.Choose(3, "signal")]
	kills := x.Choose(1<<uint(n), "killed after")
	relative := x.Bool("relative path")
	conf := func() *pb.ServerConfig {
		c := &pb.ServerConfig{Accounts: everything, BoltDbPath: dir}
		if relative {
			c.BoltDbPath = "."
		}
		return c
	}
	if kills == 0 || (relative && sig != syscall.SIGKILL) {
		x.Prune()
	}
	p, rest, rpc := start(x, dir, conf())
	entries, mutations := 0, int64(0)
	val := &pb.LeafData{}
	l := &pb.LogRef{Account: secretAcc(), Name: "l"}
	for i := 0; i < n; i++ {
		w := writes[x.Choose(menu, "write")]
		s := rest
		if w.grpc {
			s = rpc
		}
		req := w.req(i)
		_, err := world.Call(s, proto.Clone(req))
		x.Assert(err == nil, "%s: %v", w.name, err)
		x.C.Transition(1)
		switch r := req.(type) {
		case *pb.LogAddEntryRequest:
			entries++
		case *pb.MapSetValueRequest:
			mutations++
			val = &pb.LeafData{LeafInput: r.Mutation.Value.GetLeafInput()}
		}
		if kills>>uint(i)&1 == 0 {
			continue
		}
		before := observe(rpc)
		p.kill(sig)
		p, rest, rpc = start(x, dir, conf())
		for j, s := range []world.Service{rest, rpc} {
			after := observe(s)
			x.Assert(after == before, "after %s and a restart, %s sees\n%s\nand before:\n%s", w.name, []string{"REST", "gRPC"}[j], after, before)
		}
		h, err := rpc.LogTreeHash(ctx, &pb.LogTreeHashRequest{Log: l})
		x.Assert(err == nil && h.TreeSize == int64(entries), "after %d entries, %v %v", entries, h, err)
		mh, err := rest.MapTreeHash(ctx, &pb.MapTreeHashRequest{Map: &pb.MapRef{Account: secretAcc(), Name: "m"}})
		x.Assert(err == nil && mh.GetMutationLog().GetTreeSize() == mutations, "after %d mutations, %v %v", mutations, mh, err)
		v, err := rest.MapGetValue(ctx, &pb.MapGetValueRequest{Map: &pb.MapRef{Account: secretAcc(), Name: "m"}, Key: []byte("k")})
		x.Assert(err == nil && bytes.Equal(v.GetValue().GetLeafInput(), val.LeafInput), "the value is %v %v, want %v", v.GetValue(), err, val)
		x.C.State("killed", entries, mutations, string(val.LeafInput), sig)
	}
	x.C.Trace(1)
}

// demo runs the program without a configuration.
func demo(x *mck.X) {
	const addr = "127.0.0.1:8092"
	if l, err := net.Listen("tcp", ":8092"); err != nil {
		x.C.Note("without a configuration", "not run, as its port is in use")
		return
	} else {
		l.Close()
	}
	dir := scratch(x)
	p := launch(x, dir)
	x.Assert(p.up([2]string{"tcp4", addr}), "without a configuration, the server does not listen, or ends: %v", p.err)
	s := restClient(x, addr, "")
	for _, a := range []*pb.AccountRef{{Id: "0"}, {Id: "1", ApiKey: "any"}} {
		for i := 0; i < 3; i++ {
			_, err := s.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: a, Name: "l"}, Value: world.Leaf(fmt.Sprint(i), "")})
			x.Assert(err == nil, "without a configuration, adding an entry: %v", err)
			h, err := s.LogTreeHash(ctx, &pb.LogTreeHashRequest{Log: &pb.LogRef{Account: a, Name: "l"}})
			x.Assert(err == nil && h.TreeSize == int64(i+1), "without a configuration, after %d entries: %v %v", i+1, h, err)
			p, err := s.LogInclusionProof(ctx, &pb.LogInclusionProofRequest{Log: &pb.LogRef{Account: a, Name: "l"}, TreeSize: h.TreeSize, MtlHash: ref.Leaf([]byte(fmt.Sprint(i)))})
			x.Assert(err == nil && p.LeafIndex == int64(i), "without a configuration, inclusion: %v %v", p, err)
			x.C.Transition(1)
		}
	}
	x.C.Trace(1)
}
