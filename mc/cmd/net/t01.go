package main

import (
	"time"

	"github.com/continusec/verifiabledatastructures/server/httprest"

	"verifmc/mck"
)

func newREST() *transport {
	t, h := &tap{}, &hooks{}
	s, err := (&httprest.Client{BaseURL: "http://server.example", HTTPClient: h.client(httpTo(h.handler(httprest.CreateRESTHandler(t, nil, nil))))}).Dial()
	must(err)
	return &transport{name: "REST", service: s, tap: t, hooks: h, largest: 8 << 20, expressible: restExpressible, kind: restKind, trims: true}
}

func init() {
	mck.Register(mck.Check{
		ID:   "T01",
		Rule: "every request reaches the service through client, HTTP bytes and handler exactly as sent, once, or fails with the same kind of error that the service itself gives, and what the service answers is what the client returns; what REST cannot name gets an error and reaches nothing",
		Assumptions: []string{
			"HTTP connections deliver the bytes of requests and answers",
			"names, account ids, empty keys and negative numbers that the documented URLs cannot express, and API keys that HTTP headers cannot carry, are only required to fail or arrive unchanged",
		},
		Budget: 150 * time.Second,
		Run:    func(c *mck.C) { runTransport(c, newREST) },
	})
}
