package main

import (
	"fmt"
	"os"

	"github.com/golang/protobuf/proto"
	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/pb/pb"
)

// a schema tree of any shape; Kind is an index into schemaKinds
type SNode struct {
	Kind  int
	Name  string
	Nulls bool
	Kids  []*SNode `json:",omitempty"`
}

type SchemaIn struct {
	Root  *SNode
	Ids   []uint32 // numbers that the nodes have before
	Again bool
}

var schemaKinds = []pb.Type_Kind{pb.Type_STRUCT, pb.Type_LIST, pb.Type_MAP, pb.Type_BOOLEAN, pb.Type_BYTE, pb.Type_SHORT, pb.Type_INT, pb.Type_LONG,
	pb.Type_FLOAT, pb.Type_DOUBLE, pb.Type_STRING, pb.Type_BINARY, pb.Type_TIMESTAMP, pb.Type_DECIMAL, pb.Type_DATE, pb.Type_VARCHAR, pb.Type_CHAR}

func (r *R) snode(d int, size *int) *SNode {
	*size--
	n := &SNode{Kind: 3 + r.Intn(len(schemaKinds)-3), Nulls: r.pick(4)}
	names := []string{"a", "", "b", "a.b", "c", "名", fmt.Sprintf("f%d", r.Intn(50))}
	n.Name = names[r.Intn(len(names))]
	if d > 0 && *size > 0 && !r.pick(3) {
		n.Kind = r.Intn(3)
		k := []int{r.Intn(5), 1, 2}[n.Kind]
		for i := 0; i < k && (n.Kind > 0 || *size > 0); i++ {
			n.Kids = append(n.Kids, r.snode(d-1, size))
		}
	}
	return n
}

func (r *R) schema() SchemaIn {
	size := 1 + r.Intn(30)
	if r.i < 50 {
		size = 1 + r.Intn(6)
	}
	in := SchemaIn{Root: r.snode(1+r.Intn(5), &size), Again: r.pick(3)}
	var kids func(n *SNode)
	quietNulls := !r.pick(3)
	kids = func(n *SNode) { // mostly few conflicts, so that deep single ones occur
		for _, c := range n.Kids {
			if quietNulls && n.Nulls {
				c.Nulls = false
			}
			kids(c)
		}
	}
	kids(in.Root)
	if quietNulls && r.pick(2) { // one conflict somewhere
		var all []*SNode
		var walk func(n *SNode)
		walk = func(n *SNode) {
			if len(n.Kids) > 0 {
				all = append(all, n)
			}
			for _, c := range n.Kids {
				walk(c)
			}
		}
		walk(in.Root)
		if len(all) > 0 {
			n := all[r.Intn(len(all))]
			n.Nulls = true
			n.Kids[r.Intn(len(n.Kids))].Nulls = true
		}
	}
	for i := r.Intn(6); i > 0; i-- {
		in.Ids = append(in.Ids, uint32(r.Intn(9)))
	}
	return in
}

func runSchema(in SchemaIn) error {
	var nodes []*api.TypeDescription // in pre-order
	conflict := false
	var build func(n *SNode) *api.TypeDescription
	build = func(n *SNode) *api.TypeDescription {
		t := &api.TypeDescription{Kind: schemaKinds[n.Kind], HasNulls: n.Nulls}
		if len(in.Ids) > 0 {
			t.Id = in.Ids[len(nodes)%len(in.Ids)]
		}
		nodes = append(nodes, t)
		for _, c := range n.Kids {
			if n.Nulls && c.Nulls {
				conflict = true
			}
			if n.Kind == 0 {
				t.AddChild(c.Name, build(c))
			} else {
				t.Children = append(t.Children, build(c))
			}
		}
		return t
	}
	root := build(in.Root)
	schemaMu.Lock()
	err := api.NormalizeSchema(root)
	if err == nil && in.Again {
		err = api.NormalizeSchema(root)
	}
	var flat []*api.TypeDescription
	if err == nil {
		flat, err = root.Flat()
	}
	schemaMu.Unlock()
	if err != nil {
		return err
	}
	for i, t := range nodes {
		if t.Id != uint32(i) {
			return fmt.Errorf("node %d in pre-order has number %d", i, t.Id)
		}
	}
	if len(flat) != len(nodes) {
		return fmt.Errorf("%d nodes flattened, want %d", len(flat), len(nodes))
	}
	for i := range flat {
		if flat[i] != nodes[i] {
			return fmt.Errorf("flattened node %d is number %d", i, flat[i].Id)
		}
	}
	_, err = root.CreateVector(&api.BatchOption{RowSize: 2})
	if conflict && err == nil {
		return fmt.Errorf("a nullable child of a nullable composite is accepted")
	}
	if !conflict && err != nil {
		return fmt.Errorf("schema rejected: %v", err)
	}
	// stored in a file and read back
	ft := &pb.Footer{HeaderLength: new(uint64), ContentLength: new(uint64), NumberOfRows: proto.Uint64(1), Types: api.SchemasToTypes(flat)}
	for _, t := range nodes {
		ft.Statistics = append(ft.Statistics, &pb.ColumnStatistics{HasNull: proto.Bool(t.HasNulls)})
	}
	fb, err := proto.Marshal(ft)
	if err != nil {
		return err
	}
	none := pb.CompressionKind_NONE
	psb, err := proto.Marshal(&pb.PostScript{FooterLength: proto.Uint64(uint64(len(fb))), Compression: &none, Magic: proto.String("ORC")})
	if err != nil {
		return err
	}
	b := append([]byte("ORC"), fb...)
	b = append(append(b, psb...), byte(len(psb)))
	path := tempName()
	defer os.Remove(path)
	if err := os.WriteFile(path, b, 0o600); err != nil {
		return nil // not the fault of the code under test
	}
	rd, err := orc.NewOSFileReader(path)
	if err != nil {
		return fmt.Errorf("open: %v", err)
	}
	defer rd.Close()
	return sameTree(rd.GetSchema(), root, "root")
}

func shrinkSchema(in SchemaIn) (out []SchemaIn) {
	var drop func(n *SNode) []*SNode
	drop = func(n *SNode) (l []*SNode) {
		if n.Kind == 0 {
			for i := range n.Kids {
				m := *n
				m.Kids = append(append([]*SNode{}, n.Kids[:i]...), n.Kids[i+1:]...)
				l = append(l, &m)
			}
		}
		for i, c := range n.Kids {
			for _, d := range drop(c) {
				m := *n
				m.Kids = append([]*SNode{}, n.Kids...)
				m.Kids[i] = d
				l = append(l, &m)
			}
		}
		return
	}
	for _, d := range drop(in.Root) {
		o := in
		o.Root = d
		out = append(out, o)
	}
	for _, c := range in.Root.Kids {
		o := in
		o.Root = c
		out = append(out, o)
	}
	return
}

func init() {
	reg("C14", "schema", 1, func(r *R) SchemaIn { return r.schema() }, runSchema, shrinkSchema)
}
