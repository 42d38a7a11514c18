// Schemas: numbering, flattening, storing and restoring, rejecting nullable composites with nullable children.
// A node carries its pre-order number (pre) and the number after the last node below it (last).
package api

ghost field intree bool
ghost field pre int
ghost field last int
// no nullable composite with a nullable child at the node or below
ghost field sound bool

fn composite(k int) bool = k == pb.Type_STRUCT || k == pb.Type_LIST || k == pb.Type_MAP || k == pb.Type_UNION
// the nodes form trees, numbered depth first from the root; two nodes never have the same number
fn tree() bool =
  (forall n *TypeDescription {n.intree} :: n.intree ==> n != nil && n.pre < n.last && (len(n.Children) == 0 ==> n.last == n.pre + 1)) &&
  (forall n *TypeDescription, i int {n.intree, n.Children[i]} :: n.intree && 0 <= i < len(n.Children) ==> n.Children[i] != nil && n.Children[i].intree && n.pre < n.Children[i].pre && n.Children[i].last <= n.last) &&
  (forall n *TypeDescription, i int {n.intree, n.Children[i]} :: n.intree && 0 <= i < len(n.Children) ==> n.Children[i].pre == (i == 0 ? n.pre + 1 : n.Children[i-1].last)) &&
  (forall n *TypeDescription {n.intree} :: n.intree && 0 < len(n.Children) ==> n.Children[len(n.Children)-1].last == n.last) &&
  (forall a *TypeDescription, b *TypeDescription {a.intree, b.intree} :: a.intree && b.intree && a.pre == b.pre ==> a == b)
fn inside(n *TypeDescription, root *TypeDescription) bool = n.intree && root.pre <= n.pre && n.pre < root.last
fn numbered(root *TypeDescription) bool = forall n *TypeDescription {n.intree} :: inside(n, root) ==> n.Id == n.pre - root.pre
// the number after the first k children
fn done_to(n *TypeDescription, k int) int = k == 0 ? n.pre + 1 : n.Children[k-1].last
// unions are not supported
fn nounion() bool = forall n *TypeDescription {n.intree} :: n.intree ==> n.Kind != pb.Type_UNION

func traverse@addId(node, do)
  property C14
  requires tree() && node != nil && node.intree && _nodeId + node.last - node.pre <= 4294967295
  modifies each(*TypeDescription).Id, _nodeId
  ensures count: err == nil ==> _nodeId == old(_nodeId) + node.last - node.pre
  ensures ids: err == nil ==> forall n *TypeDescription {n.Id} :: inside(n, node) ==> n.Id == old(_nodeId) + n.pre - node.pre
  ensures others: forall n *TypeDescription {n.Id} :: !inside(n, node) ==> n.Id == old(n.Id)
  ensures works: nounion() ==> err == nil
  loop 1
    invariant _nodeId == old(_nodeId) + done_to(node, $n) - node.pre
    invariant forall n *TypeDescription {n.Id} :: n.intree && node.pre <= n.pre < done_to(node, $n) ==> n.Id == old(_nodeId) + n.pre - node.pre
    invariant forall n *TypeDescription {n.Id} :: !inside(n, node) ==> n.Id == old(n.Id)

func SetId(root)
  property C14
  requires tree() && root != nil && root.intree && root.last - root.pre <= 4294967295
  modifies each(*TypeDescription).Id, _nodeId
  ensures ids: err == nil ==> numbered(root)
  ensures others: forall n *TypeDescription {n.Id} :: !inside(n, root) ==> n.Id == old(n.Id)
  ensures works: nounion() ==> err == nil

func NormalizeSchema(root)
  property C14
  requires tree() && root != nil && root.intree && root.last - root.pre <= 4294967295
  modifies each(*TypeDescription).Id, _nodeId
  ensures ids: err == nil ==> numbered(root)
  ensures works: nounion() ==> err == nil

func traverse@checkId(node, do)
  property C14
  requires tree() && node != nil && node.intree
  ensures set: err == nil ==> forall n *TypeDescription {n.Id} :: inside(n, node) ==> n.Id != 0
  ensures works: nounion() && (forall n *TypeDescription {n.Id} :: inside(n, node) ==> n.Id != 0) ==> err == nil
  loop 1
    invariant forall n *TypeDescription {n.Id} :: n.intree && node.pre <= n.pre < done_to(node, $n) ==> n.Id != 0

func traverse@addSchema(node, do)
  property C14
  requires tree() && node != nil && node.intree
  modifies _schemas
  ensures count: err == nil ==> len(_schemas) == len(old(_schemas)) + node.last - node.pre
  ensures before: len(old(_schemas)) <= len(_schemas) && forall k int {_schemas[k]} :: 0 <= k < len(old(_schemas)) ==> _schemas[k] == old(_schemas)[k]
  ensures nodes: err == nil ==> forall n *TypeDescription {n.intree} :: inside(n, node) ==> _schemas[len(old(_schemas)) + n.pre - node.pre] == n
  ensures listed: err == nil ==> (forall k int {_schemas[k]} :: len(old(_schemas)) <= k < len(_schemas) ==> _schemas[k] != nil && inside(_schemas[k], node) && _schemas[k].pre - node.pre == k - len(old(_schemas)))
  ensures works: nounion() ==> err == nil
  loop 1
    invariant len(_schemas) == len(old(_schemas)) + done_to(node, $n) - node.pre
    invariant forall k int {_schemas[k]} :: 0 <= k < len(old(_schemas)) ==> _schemas[k] == old(_schemas)[k]
    invariant forall n *TypeDescription {n.intree} :: n.intree && node.pre <= n.pre < done_to(node, $n) ==> _schemas[len(old(_schemas)) + n.pre - node.pre] == n
    invariant forall k int {_schemas[k]} :: len(old(_schemas)) <= k < len(_schemas) ==> _schemas[k] != nil && inside(_schemas[k], node) && _schemas[k].pre - node.pre == k - len(old(_schemas))

// every node once, in the order of the numbers
fn isflat(s []*TypeDescription, root *TypeDescription) bool = len(s) == root.last - root.pre && (forall n *TypeDescription {n.intree} :: inside(n, root) ==> s[n.pre - root.pre] == n) &&
  (forall k int {s[k]} :: 0 <= k < len(s) ==> s[k] != nil && inside(s[k], root) && s[k].pre - root.pre == k)

func (root *TypeDescription) Flat()
  property C14, C13
  requires tree() && root.intree
  modifies _schemas
  ensures flat: err == nil ==> isflat(ret0, root)
  ensures works: nounion() && numbered(root) ==> err == nil

// storing a schema: the numbers of the children, the names, the kind of every node
fn typed(t *pb.Type, n *TypeDescription) bool = t != nil && t.Kind != nil && *t.Kind == n.Kind && t.FieldNames == n.ChildrenNames && len(t.Subtypes) == len(n.Children) &&
  (forall j int {t.Subtypes[j]} :: 0 <= j < len(n.Children) ==> t.Subtypes[j] == n.Children[j].Id)

func SchemasToTypes(schemas)
  property C14, C13
  requires forall i int {schemas[i]} :: 0 <= i < len(schemas) ==> schemas[i] != nil
  requires forall i int, j int {schemas[i], schemas[i].Children[j]} :: 0 <= i < len(schemas) && 0 <= j < len(schemas[i].Children) ==> schemas[i].Children[j] != nil
  ensures typed: len(ret0) == len(schemas) && forall i int {ret0[i]} :: 0 <= i < len(schemas) ==> typed(ret0[i], schemas[i])
  var I int = 0
  at loopbegin 1 { I = $n }
  loop 1
    invariant len(t) == len(schemas)
    invariant forall i int {t[i]} :: 0 <= i < $n ==> fresh(t[i]) && fresh(t[i].Kind) && typed(t[i], schemas[i])
    invariant forall i int, j int {t[i], t[j]} :: 0 <= i < j < $n ==> t[i] != t[j]
  loop 2
    invariant len(t) == len(schemas) && 0 <= I < len(schemas) && fresh(t[I]) && fresh(t[I].Kind) && *t[I].Kind == schemas[I].Kind && t[I].FieldNames == schemas[I].ChildrenNames && len(t[I].Subtypes) == len(schemas[I].Children)
    invariant forall j int {t[I].Subtypes[j]} :: 0 <= j < $n ==> t[I].Subtypes[j] == schemas[I].Children[j].Id
    invariant forall i int {t[i]} :: 0 <= i < I ==> fresh(t[i]) && fresh(t[i].Kind) && t[i] != t[I] && typed(t[i], schemas[i])
    invariant forall i int, j int {t[i], t[j]} :: 0 <= i < j < I ==> t[i] != t[j]

// a nullable composite with a nullable child, anywhere below
fn here(hasnulls bool, kind int, cs []*TypeDescription) bool = composite(kind) ==> forall i int {cs[i]} :: 0 <= i < len(cs) ==> !(hasnulls && cs[i].HasNulls) && cs[i].sound
fn soundness() bool = forall n *TypeDescription {n.sound} :: n.intree ==> (n.sound <==> here(n.HasNulls, n.Kind, n.Children))
fn below(cs []*TypeDescription) bool = forall i int {cs[i]} :: 0 <= i < len(cs) ==> cs[i] != nil && cs[i].intree
// lists have an element, maps a key and a value
fn arity(kind int, cs []*TypeDescription) bool = kind != pb.Type_UNION && (kind == pb.Type_LIST ==> len(cs) >= 1) && (kind == pb.Type_MAP ==> len(cs) >= 2)
fn arities() bool = forall n *TypeDescription {n.intree} :: n.intree ==> arity(n.Kind, n.Children)

func (td TypeDescription) verifySchema()
  property C14
  requires tree() && soundness() && below(td.Children)
  ensures rejects: err == nil <==> here(td.HasNulls, td.Kind, td.Children)
  loop 1
    invariant forall i int {td.Children[i]} :: 0 <= i < $n ==> !(td.HasNulls && td.Children[i].HasNulls) && td.Children[i].sound

func (td TypeDescription) createDecimal64(opt)
  property C14
  requires opt != nil && 0 <= opt.RowSize
  ensures fresh(ret0) && ret0.Kind == td.Kind && ret0.Id == td.Id
  ensures !opt.NotCreateVector ==> len(ret0.Vector) == opt.RowSize
  loop 1
    invariant len(vec) == opt.RowSize && 0 <= i <= opt.RowSize
    decreases opt.RowSize - i

func (td TypeDescription) createTimestamp(opt)
  property C14
  requires opt != nil && 0 <= opt.RowSize
  ensures fresh(ret0) && ret0.Kind == td.Kind && ret0.Id == td.Id
  ensures !opt.NotCreateVector ==> len(ret0.Vector) == opt.RowSize
  loop 1
    invariant len(vec) == opt.RowSize && 0 <= i <= opt.RowSize
    decreases opt.RowSize - i

func (td TypeDescription) createVector(opt)
  property C14
  requires tree() && arities() && below(td.Children) && arity(td.Kind, td.Children) && opt != nil && 0 <= opt.RowSize
  ensures ret0 != nil ==> fresh(ret0) && ret0.Kind == td.Kind && ret0.Id == td.Id
  ensures len(opt.Includes) == 0 ==> ret0 != nil

func (td TypeDescription) CreateVector(opt)
  property C14
  requires tree() && soundness() && arities() && below(td.Children) && arity(td.Kind, td.Children) && opt != nil && 0 <= opt.RowSize
  ensures rejects: opt.RowSize != 0 ==> (err == nil <==> here(td.HasNulls, td.Kind, td.Children))
