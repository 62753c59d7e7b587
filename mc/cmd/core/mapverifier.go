package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"

	"verifmc/mck"
	"verifmc/ref"
	"verifmc/world"
)

// mapVerdict is the reference verdict on a map response.
func mapVerdict(g *pb.MapGetValueResponse, key []byte, head *pb.MapTreeHashResponse) bool {
	if g.GetTreeSize() != head.GetMutationLog().GetTreeSize() || len(g.GetAuditPath()) != 256 {
		return false
	}
	return bytes.Equal(ref.RootFromMapProof(key, ref.Leaf(g.GetValue().GetLeafInput()), g.AuditPath), head.GetRootHash())
}

func init() {
	mck.Register(mck.Check{ID: "M04", Run: func(c *mck.C) {
		keys := [][]byte{ref.Base, ref.Ladder[0], ref.Ladder[8], ref.Ladder[21], ref.Ladder[41], []byte("")}
		probe := append(append([][]byte{}, keys...), ref.Ladder[1], ref.Ladder[9], ref.Ladder[20], []byte("absent"))
		type inst struct {
			st   *ref.MapState
			vals map[string]string
			root []byte
			name string
		}
		var insts []inst
		for mask := 0; mask < 1<<len(keys); mask++ {
			if c.Quick() && mask%3 != 0 && mask != 1<<len(keys)-1 {
				continue
			}
			in := inst{st: ref.NewMap(), vals: map[string]string{}, name: fmt.Sprintf("keys %06b", mask)}
			for i, k := range keys {
				if mask>>i&1 == 1 {
					v := fmt.Sprint("value ", i)
					in.st.Set(k, []byte(v))
					in.vals[string(k)] = v
				}
			}
			in.root = in.st.Root()
			insts = append(insts, in)
		}
		judge := func(x *mck.X, what string, g *pb.MapGetValueResponse, key []byte, head *pb.MapTreeHashResponse) {
			err := verifiable.VerifyMapInclusionProof(g, key, head)
			want := mapVerdict(g, key, head)
			x.Assert((err == nil) == want, "%s for key %q: verifier says %v, the reference accepts: %v (path of %d elements, size %d, head %v)", what, key, err, want, len(g.AuditPath), g.TreeSize, head)
			c.Transition(1)
		}
		c.Explore("altered proofs", func(x *mck.X) {
			in := insts[x.Choose(len(insts), "map")]
			key := probe[x.Choose(len(probe), "key")]
			sib := in.st.Siblings(key)
			mk := func() *pb.MapGetValueResponse {
				p := make([][]byte, 256)
				for i := range p {
					if !bytes.Equal(sib[i], ref.Default[i+1]) {
						p[i] = append([]byte{}, sib[i]...)
					}
				}
				return &pb.MapGetValueResponse{TreeSize: 9, AuditPath: p, Value: &pb.LeafData{LeafInput: []byte(in.vals[string(key)])}}
			}
			head := func() *pb.MapTreeHashResponse {
				return &pb.MapTreeHashResponse{RootHash: in.root, MutationLog: &pb.LogTreeHashResponse{TreeSize: 9, RootHash: ref.Default[3]}}
			}
			x.Logf("map of %s, key %q", in.name, key)
			c.State(in.name, string(key))
			x.Assert(mapVerdict(mk(), key, head()), "mck: reference disagrees with itself")
			judge(x, "honest proof", mk(), key, head())
			c.Trace(1)
			switch x.Choose(9, "alteration") {
			case 0: // each element replaced
				for i := 0; i < 256; i++ {
					for how := 0; how < 9; how++ {
						g := mk()
						e := g.AuditPath[i]
						full := sib[i]
						switch how {
						case 0:
							g.AuditPath[i] = nil
						case 1:
							g.AuditPath[i] = []byte{}
						case 2:
							g.AuditPath[i] = full
						case 3:
							b := append([]byte{}, full...)
							b[0] ^= 1
							g.AuditPath[i] = b
						case 4:
							b := append([]byte{}, full...)
							b[31] ^= 128
							g.AuditPath[i] = b
						case 5:
							g.AuditPath[i] = full[:31]
						case 6:
							g.AuditPath[i] = append(append([]byte{}, full...), 0)
						case 7:
							g.AuditPath[i] = ref.Default[i]
						case 8:
							g.AuditPath[i] = in.root
						}
						_ = e
						judge(x, fmt.Sprintf("proof with element %d altered (%d)", i, how), g, key, head())
					}
				}
			case 1: // lengths
				for n := 0; n <= 256; n++ {
					g := mk()
					g.AuditPath = g.AuditPath[:n]
					judge(x, fmt.Sprintf("proof cut to %d", n), g, key, head())
					g = mk()
					g.AuditPath = g.AuditPath[256-n:]
					judge(x, fmt.Sprintf("last %d of proof", n), g, key, head())
				}
				for _, extra := range [][][]byte{{nil}, {{}}, {ref.Default[0]}, {nil, nil}, make([][]byte, 256)} {
					g := mk()
					g.AuditPath = append(g.AuditPath, extra...)
					judge(x, fmt.Sprintf("proof with %d more", len(extra)), g, key, head())
					g = mk()
					g.AuditPath = append(append([][]byte{}, extra...), g.AuditPath...)
					judge(x, fmt.Sprintf("proof with %d more in front", len(extra)), g, key, head())
				}
			case 2: // elements swapped
				for i := 0; i < 256; i++ {
					for _, j := range []int{i + 1, 255 - i, (i + 128) % 256} {
						if j < 256 && j != i {
							g := mk()
							g.AuditPath[i], g.AuditPath[j] = g.AuditPath[j], g.AuditPath[i]
							judge(x, fmt.Sprintf("proof with %d and %d swapped", i, j), g, key, head())
						}
					}
				}
				g := mk()
				for i := 0; i < 128; i++ {
					g.AuditPath[i], g.AuditPath[255-i] = g.AuditPath[255-i], g.AuditPath[i]
				}
				judge(x, "reversed proof", g, key, head())
			case 3: // values
				vals := [][]byte{nil, {}, {0}, []byte("value 0"), []byte("value 1"), []byte("value"), ref.Default[256], ref.Leaf([]byte("value 0")), in.root, bytes.Repeat([]byte("v"), 1000)}
				for _, v := range vals {
					g := mk()
					g.Value = &pb.LeafData{LeafInput: v, ExtraData: []byte("value 0"), Format: pb.DataFormat_JSON}
					judge(x, fmt.Sprintf("value %q", v), g, key, head())
				}
				g := mk()
				g.Value = nil
				judge(x, "missing value", g, key, head())
			case 4: // the proof of another key
				for _, k := range probe {
					judge(x, fmt.Sprintf("proof of %q", key), mk(), k, head())
				}
				judge(x, "proof of another key", mk(), nil, head())
			case 5: // sizes
				for _, a := range []int64{0, 1, 8, 9, 10, -9, math.MaxInt64, math.MinInt64} {
					for _, b := range []int64{0, 1, 8, 9, 10, -9, math.MaxInt64, math.MinInt64} {
						g, h := mk(), head()
						g.TreeSize, h.MutationLog.TreeSize = a, b
						judge(x, "sizes altered", g, key, h)
					}
					g, h := mk(), head()
					g.TreeSize, h.MutationLog = a, nil
					judge(x, "head without log head", g, key, h)
				}
			case 6: // roots
				roots := [][]byte{nil, {}, {0}, in.root[:31], append(append([]byte{}, in.root...), 0), ref.Default[0], ref.Default[256], bytes.Repeat([]byte{0}, 32)}
				for i := 0; i < 256; i++ {
					b := append([]byte{}, in.root...)
					b[i/8] ^= 1 << (i % 8)
					roots = append(roots, b)
				}
				for _, o := range roots {
					h := head()
					h.RootHash = o
					judge(x, fmt.Sprintf("root %x", o), mk(), key, h)
				}
			case 7: // proofs from another map
				for _, o := range insts {
					h := head()
					h.RootHash = o.root
					judge(x, "proof of another map, "+o.name, mk(), key, h)
				}
			case 8: // everything missing
				judge(x, "empty response", &pb.MapGetValueResponse{}, key, &pb.MapTreeHashResponse{})
				judge(x, "empty response", &pb.MapGetValueResponse{}, key, head())
				judge(x, "empty head", mk(), key, &pb.MapTreeHashResponse{})
				g := mk()
				g.AuditPath = make([][]byte, 256)
				judge(x, "empty path", g, key, head())
				h := head()
				h.RootHash = ref.Default[0]
				judge(x, "empty path in an empty map", g, key, h)
			}
			c.Sample("altered", "%s, key %q", in.name, key)
		})
		_ = world.Ctx
	}})
}
