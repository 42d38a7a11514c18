// Restoring a schema from the types of a file.
package orc

func (t *pb.Type) GetKind() pure
  property C14
  ensures ret0 == (t == nil || t.Kind == nil ? 0 : *t.Kind)

// what a file may contain: children exist, every child of a struct has a name
fn tkind(t *pb.Type) int = t.Kind == nil ? 0 : *t.Kind
fn storable(t *pb.Type, n int) bool = t != nil && (forall j int {t.Subtypes[j]} :: 0 <= j < len(t.Subtypes) ==> t.Subtypes[j] < n) && (tkind(t) == pb.Type_STRUCT ==> len(t.FieldNames) >= len(t.Subtypes))
fn restored(n *api.TypeDescription, t *pb.Type, all []*api.TypeDescription) bool = n != nil && n.Kind == tkind(t) && len(n.Children) == len(t.Subtypes) && len(n.ChildrenNames) == len(t.Subtypes) &&
  (forall j int {n.Children[j]} :: 0 <= j < len(t.Subtypes) ==> n.Children[j] == all[t.Subtypes[j]]) &&
  (forall j int {n.ChildrenNames[j]} :: 0 <= j < len(t.Subtypes) && tkind(t) == pb.Type_STRUCT ==> n.ChildrenNames[j] == t.FieldNames[j])

func unmarshallSchema(types)
  property C14
  requires forall i int {types[i]} :: 0 <= i < len(types) ==> storable(types[i], len(types))
  ensures nodes: len(ret0) == len(types) && forall i int {ret0[i]} :: 0 <= i < len(types) ==> fresh(ret0[i]) && ret0[i].Id == u32(i) && restored(ret0[i], types[i], ret0)
  ensures apart: forall i int, j int {ret0[i], ret0[j]} :: 0 <= i < j < len(ret0) ==> ret0[i] != ret0[j]
  var I int = 0
  at loopbegin 2 { I = $n }
  loop 1
    invariant len(schemas) == len(types)
    invariant forall i int {schemas[i]} :: 0 <= i < $n ==> fresh(schemas[i]) && schemas[i].Id == u32(i) && schemas[i].Kind == tkind(types[i]) && schemas[i].Children == empty([]*api.TypeDescription) && schemas[i].ChildrenNames == empty([]string)
    invariant forall i int, j int {schemas[i], schemas[j]} :: 0 <= i < j < $n ==> schemas[i] != schemas[j]
  loop 2
    invariant len(schemas) == len(types)
    invariant forall i int {schemas[i]} :: 0 <= i < len(types) ==> fresh(schemas[i]) && schemas[i].Id == u32(i) && schemas[i].Kind == tkind(types[i])
    invariant forall i int {schemas[i]} :: $n <= i < len(types) ==> schemas[i].Children == empty([]*api.TypeDescription) && schemas[i].ChildrenNames == empty([]string)
    invariant forall i int, j int {schemas[i], schemas[j]} :: 0 <= i < j < len(types) ==> schemas[i] != schemas[j]
    invariant forall i int {schemas[i]} :: 0 <= i < $n ==> restored(schemas[i], types[i], schemas)
  loop 3
    invariant len(schemas) == len(types) && 0 <= I < len(types)
    invariant forall i int {schemas[i]} :: 0 <= i < len(types) ==> fresh(schemas[i]) && schemas[i].Id == u32(i) && schemas[i].Kind == tkind(types[i])
    invariant forall i int {schemas[i]} :: I < i < len(types) ==> schemas[i].Children == empty([]*api.TypeDescription) && schemas[i].ChildrenNames == empty([]string)
    invariant forall i int, j int {schemas[i], schemas[j]} :: 0 <= i < j < len(types) ==> schemas[i] != schemas[j]
    invariant forall i int {schemas[i]} :: 0 <= i < I ==> restored(schemas[i], types[i], schemas)
    invariant len(schemas[I].Children) == len(types[I].Subtypes) && len(schemas[I].ChildrenNames) == len(types[I].Subtypes)
    invariant forall j int {schemas[I].Children[j]} :: 0 <= j < $n ==> schemas[I].Children[j] == schemas[types[I].Subtypes[j]]
    invariant forall j int {schemas[I].ChildrenNames[j]} :: 0 <= j < $n && tkind(types[I]) == pb.Type_STRUCT ==> schemas[I].ChildrenNames[j] == types[I].FieldNames[j]

// A schema numbered, flattened and stored, the types of the file the same: what is restored is the same tree.
fn sametype(a *pb.Type, b *pb.Type) bool = a != nil && b != nil && tkind(a) == tkind(b) && a.Subtypes == b.Subtypes && a.FieldNames == b.FieldNames

// names: those of the children of a struct
fn named() bool = forall n *api.TypeDescription {n.intree} :: n.intree ==> len(n.ChildrenNames) == len(n.Children)
// what lies below a node is numbered within it
fn nested() bool = forall a *api.TypeDescription, b *api.TypeDescription {a.intree, b.intree} :: inside(b, a) ==> b.last <= a.last
lemma schema_restored(root *api.TypeDescription, flat []*api.TypeDescription, ty []*pb.Type, got []*pb.Type, sch []*api.TypeDescription)
  heap
  property C14
  requires tree() && nested() && named() && root != nil && root.intree && root.last - root.pre <= 4294967295
  requires numbered(root) && isflat(flat, root)
  requires len(ty) == len(flat) && forall i int {ty[i]} :: 0 <= i < len(flat) ==> typed(ty[i], flat[i])
  requires len(got) == len(ty) && forall i int {got[i]} :: 0 <= i < len(ty) ==> sametype(got[i], ty[i])
  requires len(sch) == len(got) && forall i int {sch[i]} :: 0 <= i < len(got) ==> sch[i].Id == u32(i) && restored(sch[i], got[i], sch)
  ensures storable: forall i int {got[i]} :: 0 <= i < len(got) ==> storable(got[i], len(got))
  ensures nodes: len(sch) == root.last - root.pre
  ensures same: forall n *api.TypeDescription {n.intree} :: inside(n, root) ==> (let s = sch[n.pre - root.pre] in s.Kind == n.Kind && s.Id == n.pre - root.pre && len(s.Children) == len(n.Children) && (n.Kind == pb.Type_STRUCT ==> s.ChildrenNames == n.ChildrenNames))
  ensures children: forall n *api.TypeDescription, j int {n.intree, n.Children[j]} :: inside(n, root) && 0 <= j < len(n.Children) ==> sch[n.pre - root.pre].Children[j] == sch[n.Children[j].pre - root.pre]
  ensures root: sch[0].Kind == root.Kind
{
  assert forall n *api.TypeDescription, j int {n.intree, n.Children[j]} :: inside(n, root) && 0 <= j < len(n.Children) ==> inside(n.Children[j], root) && n.Children[j].pre - root.pre < len(flat)
  assert forall i int {flat[i]} :: 0 <= i < len(flat) ==> flat[i].pre - root.pre == i
  assert forall i int {got[i]} :: 0 <= i < len(got) ==> typed(ty[i], flat[i]) && sametype(got[i], ty[i]) && inside(flat[i], root)
  assert forall n *api.TypeDescription {n.intree} :: inside(n, root) ==> typed(ty[n.pre - root.pre], n) && sametype(got[n.pre - root.pre], ty[n.pre - root.pre]) && restored(sch[n.pre - root.pre], got[n.pre - root.pre], sch)
}

// a reader has the schema, the rows and the stripes of the file it was opened on
func (f *pb.FileTail) GetFooter() pure
  property C12, C14
  ensures ret0 == (f == nil ? nil : f.Footer)
func (f *pb.Footer) GetStripes() pure
  property C12, C14
  ensures ret0 == (f == nil ? empty([]*pb.StripeInformation) : f.Stripes)
func (f *pb.Footer) GetStatistics() pure
  property C12, C14, C11
  ensures ret0 == (f == nil ? empty([]*pb.ColumnStatistics) : f.Statistics)
func (f *pb.Footer) GetNumberOfRows() pure
  property C12, C13, C14
  ensures ret0 == (f == nil || f.NumberOfRows == nil ? 0 : *f.NumberOfRows)
func (f *pb.ColumnStatistics) GetHasNull() pure
  property C12, C14
  ensures ret0 == (f != nil && f.HasNull != nil && *f.HasNull)
extern func (f *pb.Footer) GetRowIndexStride() pure

func newReader(f)
  property C12, C14
  requires f != nil && alloced(f) && len(f.data) <= 4611686018427387904
  modifies f.content
  ensures file: err == nil ==> fresh(ret0) && ret0.f == f && ret0.opts != nil && ret0.numberOfRows > 0
  var T *pb.FileTail = nil
  at after call extractFileTail {
    T = res0
    // the file holds a schema: what the lemma schema_restored shows of the files written
    if res1 == nil { assume len(T.Footer.Statistics) <= len(T.Footer.Types) && forall i int {T.Footer.Types[i]} :: 0 <= i < len(T.Footer.Types) ==> storable(T.Footer.Types[i], len(T.Footer.Types)) }
  }
  at exit {
    assert err == nil ==> T.Footer.NumberOfRows != nil && ret0.numberOfRows == *T.Footer.NumberOfRows && ret0.stripes == T.Footer.Stripes && ret0.stats == T.Footer.Statistics
    assert err == nil ==> len(ret0.schemas) == len(T.Footer.Types) && forall i int {ret0.schemas[i]} :: 0 <= i < len(ret0.schemas) ==> restored(ret0.schemas[i], T.Footer.Types[i], ret0.schemas)
    assert err == nil ==> forall i int {T.Footer.Statistics[i]} :: 0 <= i < len(T.Footer.Statistics) ==> (ret0.schemas[i].HasNulls <==> T.Footer.Statistics[i] != nil && T.Footer.Statistics[i].HasNull != nil && *T.Footer.Statistics[i].HasNull)
    assert err == nil ==> ret0.opts.CompressionKind == pscomp(T.Postscript)
  }
  loop 1
    invariant len(schemas) == len(T.Footer.Types) && T != nil && T.Footer != nil && T.Postscript != nil
    invariant forall i int {schemas[i]} :: 0 <= i < len(schemas) ==> fresh(schemas[i]) && restored(schemas[i], T.Footer.Types[i], schemas)
    invariant forall i int, j int {schemas[i], schemas[j]} :: 0 <= i < j < len(schemas) ==> schemas[i] != schemas[j]
    invariant forall i int {schemas[i]} :: 0 <= i < $n ==> (schemas[i].HasNulls <==> T.Footer.Statistics[i] != nil && T.Footer.Statistics[i].HasNull != nil && *T.Footer.Statistics[i].HasNull)
