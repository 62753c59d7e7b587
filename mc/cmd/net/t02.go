package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"slices"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/server/grpc"

	"verifmc/mck"
	"verifmc/ref"
	"verifmc/world"
)

var sockets atomic.Int64

// serveGRPC starts a server and gives its address.
func serveGRPC(s pb.VerifiableDataStructuresServiceServer, cert, key string) string {
	network, p := "unix", filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("g%d", sockets.Add(1)))
	target := "unix://" + p
	if port := freePort(); port != 0 {
		network, p, target = "tcp", fmt.Sprint("127.0.0.1:", port), fmt.Sprint("localhost:", port)
	}
	conf := &pb.ServerConfig{GrpcListenProtocol: network, GrpcListenBind: p, ServerCertPath: cert, ServerKeyPath: key, InsecureServerForTesting: cert == ""}
	go grpc.StartServer(conf, s)
	for i := 0; ; i++ {
		if c, err := net.Dial(network, p); err == nil {
			c.Close()
			break
		}
		if i > 2000 {
			panic("gRPC server does not listen where its configuration says")
		}
		time.Sleep(5 * time.Millisecond)
	}
	return target
}

// freePort gives a port that nobody listens on, below those that the kernel
// gives to others, or 0 if there is no network.
func freePort() int {
	if hosts, err := net.LookupHost("localhost"); err != nil || !slices.Contains(hosts, "127.0.0.1") {
		return 0
	}
	for i := 0; i < 2000; i++ {
		port := 12000 + (os.Getpid()*131+int(sockets.Add(1)))%16000
		if l, err := net.Listen("tcp", fmt.Sprint("127.0.0.1:", port)); err == nil {
			l.Close()
			return port
		}
	}
	return 0
}

// identity is a certificate authority that has certified itself.
type identity struct{ cert, key string }

func (i *identity) pem() []byte {
	b, err := os.ReadFile(i.cert)
	must(err)
	return b
}

func newIdentity(host string, until time.Time) *identity {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	n := sockets.Add(1)
	t := &x509.Certificate{SerialNumber: big.NewInt(n), Subject: pkix.Name{CommonName: fmt.Sprint(host, n)}, DNSNames: []string{host}, NotBefore: time.Now().Add(-48 * time.Hour), NotAfter: until,
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	must(err)
	kd, err := x509.MarshalPKCS8PrivateKey(k)
	must(err)
	p := filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("id%d", n))
	must(os.WriteFile(p+".crt", pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o600))
	must(os.WriteFile(p+".key", pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: kd}), 0o600))
	return &identity{p + ".crt", p + ".key"}
}

var ours = sync.OnceValue(func() *identity { return newIdentity("localhost", time.Now().Add(48*time.Hour)) })

func newGRPC(secure bool) *transport {
	t := &tap{}
	var c *grpc.Client
	if secure {
		c = &grpc.Client{Address: serveGRPC(t, ours().cert, ours().key), CertDer: ours().pem()}
	} else {
		c = &grpc.Client{Address: serveGRPC(t, "", ""), NoGrpcSecurity: true}
	}
	s, err := c.Dial()
	must(err)
	return &transport{name: "gRPC", service: s, tap: t, hooks: &hooks{}, largest: 4<<20 - 40000, expressible: grpcExpressible, kind: grpcKind}
}

// authentication explores which clients talk to which servers.
func authentication(c *mck.C) {
	past := time.Now().Add(-24 * time.Hour)
	future := time.Now().Add(48 * time.Hour)
	other, elsewhere, expired := newIdentity("localhost", future), newIdentity("elsewhere.example", future), newIdentity("localhost", past)
	ids := []*identity{nil, ours(), other, elsewhere, expired}
	idNames := []string{"no security", "our certificate", "another certificate", "a certificate for another host", "an expired certificate"}
	type server struct {
		tap  *tap
		addr string
	}
	var servers []server
	for _, id := range ids {
		t := &tap{}
		if id == nil {
			servers = append(servers, server{t, serveGRPC(t, "", "")})
		} else {
			servers = append(servers, server{t, serveGRPC(t, id.cert, id.key)})
		}
	}
	junk := []byte("-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n")
	clientNames := append(append([]string{}, idNames...), "the system's certificates", "no certificate in its file", "a malformed certificate", "both our and another certificate")
	c.ExploreSerial("authentication", func(x *mck.X) {
		si := x.Choose(len(ids), "server with")
		ci := x.Choose(len(clientNames), "client trusting")
		cl := &grpc.Client{Address: servers[si].addr}
		want := false
		mayRefuse := false
		switch {
		case ci == 0:
			cl.NoGrpcSecurity = true
			want = si == 0
		case ci < len(ids):
			cl.CertDer = ids[ci].pem()
			want = ci == si && si <= 2
		case ci == len(ids):
		case ci == len(ids)+1:
			cl.CertDer = []byte("nothing")
			mayRefuse = true
		case ci == len(ids)+2:
			cl.CertDer = junk
			mayRefuse = true
		default:
			cl.CertDer = append(ours().pem(), other.pem()...)
			want = si == 1 || si == 2
		}
		t := servers[si].tap
		t.reset(func(proto.Message) (proto.Message, error) {
			return &pb.LogTreeHashResponse{TreeSize: 3, RootHash: ref.Leaf(nil)}, nil
		})
		x.C.Trace(1)
		x.C.State("authentication", idNames[si], clientNames[ci])
		s, err := cl.Dial()
		if err != nil {
			x.Assert(mayRefuse, "a client trusting %s can't be created: %v", clientNames[ci], err)
			return
		}
		resp, err := s.LogTreeHash(ctx, &pb.LogTreeHashRequest{Log: &pb.LogRef{Account: &pb.AccountRef{Id: "0", ApiKey: "secret"}, Name: "l"}})
		n, _, _, _ := t.got()
		x.C.Transition(1)
		if want {
			x.Assert(err == nil && n == 1, "a client trusting %s can't talk to a server with %s: %v", clientNames[ci], idNames[si], err)
			return
		}
		x.Assert(n == 0, "a client trusting %s sent its request to a server with %s", clientNames[ci], idNames[si])
		x.Assert(err != nil, "a client trusting %s accepted %s from a server with %s", clientNames[ci], world.Text(resp), idNames[si])
		x.Assert(status.Code(err) == codes.Unavailable, "a client trusting %s got %v from a server with %s", clientNames[ci], err, idNames[si])
	})
}

func init() {
	mck.Register(mck.Check{
		ID:   "T02",
		Rule: "every request reaches the service through gRPC client, connection and server exactly as sent, once, and what the service answers or fails with is what the client returns, with and without TLS; and a client sends requests only to servers that it has reason to trust",
		Assumptions: []string{
			"local sockets deliver what is written to them",
			"requests and answers are below gRPC's limit of 4 MB, and account ids, API keys, names and actions are UTF-8 strings, as protocol buffers require; others only need to fail",
			"the TLS library establishes whether a certificate is genuine",
		},
		Budget: 200 * time.Second,
		Run: func(c *mck.C) {
			runTransport(c, func() *transport { return newGRPC(false) })
			runTransport(c, func() *transport { return newGRPC(true) })
			authentication(c)
		},
	})
}
