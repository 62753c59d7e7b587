package browser

import (
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

// prelude has helpers for the code of calls.
const prelude = `
var Client = function () { return new ContinusecClient(args.account === undefined ? '0' : args.account, args.key === undefined ? 'key' : args.key, 'http://server.example'); };
var Log = function (l) {
	var c = Client();
	switch (l.type) {
	case 1: return c.getVerifiableMap(l.name).getMutationLog();
	case 2: return c.getVerifiableMap(l.name).getTreeHeadLog();
	}
	return c.getVerifiableLog(l.name);
};
var Map = function (name) { return Client().getVerifiableMap(name); };
var Head = function (h) { return h === null ? null : new LogTreeHead(h.size, h.root); };
var MapHead = function (h) { return h === null ? null : new MapTreeHead(Head(h.mutation), h.root); };
var State = function (s) { return s === null ? null : new MapTreeState(MapHead(s.head), Head(s.log)); };
var Leaf = function (h) { return { getLeafHash: function () { return h; } }; };
`

// Code is code that can use the helpers.
func Code(s string) string { return prelude + s }

// Head is a head for the helpers.
func Head(h *pb.LogTreeHashResponse) interface{} {
	if h == nil {
		return nil
	}
	return map[string]interface{}{"size": h.TreeSize, "root": Str(h.RootHash)}
}

// MapHead is a map's head for the helpers.
func MapHead(h *pb.MapTreeHashResponse) interface{} {
	if h == nil {
		return nil
	}
	ml := h.MutationLog
	if ml == nil {
		ml = &pb.LogTreeHashResponse{}
	}
	return map[string]interface{}{"mutation": Head(ml), "root": Str(h.RootHash)}
}

// State is a map's state for the helpers.
func State(s *verifiable.MapTreeState) interface{} {
	if s == nil {
		return nil
	}
	return map[string]interface{}{"head": MapHead(s.MapTreeHead), "log": Head(s.TreeHeadLogTreeHead)}
}

// Path is a list of hashes for the helpers.
func Path(p [][]byte) []string {
	rv := make([]string, len(p))
	for i := range p {
		rv[i] = Str(p[i])
	}
	return rv
}

// Log names a log for the helpers.
func Log(name string, t pb.LogType) interface{} {
	return map[string]interface{}{"name": name, "type": int(t)}
}

// AsHead is the head that a value is; ok is false when it has a size that is
// not one.
func AsHead(v Value) (h *pb.LogTreeHashResponse, ok bool) {
	n, ok := AsSize(v.Get("getTreeSize"))
	if !ok {
		return nil, false
	}
	root, ok := v.Get("getRootHash").Bytes()
	if !ok && !(v.Get("getRootHash").Null && n == 0) {
		return nil, false
	}
	return &pb.LogTreeHashResponse{TreeSize: n, RootHash: root}, true
}

// AsSize is the number that a value is.
func AsSize(v Value) (int64, bool) {
	if v.N == nil {
		return 0, false
	}
	var n int64
	s := *v.N
	if len(s) == 0 || len(s) > 16 {
		return 0, false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n = n*10 + int64(s[i]-'0')
	}
	return n, true
}

// AsMapHead is the map head that a value is.
func AsMapHead(v Value) (*pb.MapTreeHashResponse, bool) {
	ml, ok := AsHead(v.Get("getMutationLogTreeHead"))
	if !ok {
		return nil, false
	}
	root, ok := v.Get("getRootHash").Bytes()
	return &pb.MapTreeHashResponse{MutationLog: ml, RootHash: root}, ok
}

// AsState is the map state that a value is.
func AsState(v Value) (*verifiable.MapTreeState, bool) {
	h, ok := AsMapHead(v.Get("getMapHead"))
	if !ok {
		return nil, false
	}
	l, ok := AsHead(v.Get("getTreeHeadLogTreeHead"))
	return &verifiable.MapTreeState{MapTreeHead: h, TreeHeadLogTreeHead: l}, ok
}
