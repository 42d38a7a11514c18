// Reading a file in batches: every row once, in order; seeking to a row.
// Rows are tokens: every are the rows a column reader has, left those it has yet to read, held those in a vector.
package orc

ghost field every []int
ghost field left []int
ghost field held []int
// the number of rows a vector holds and has room for
ghost field nrows int
ghost field room int
// the first row of a stripe, the rows of the file
ghost field first int
ghost field frows []int

// column readers (what the readers of package column are proved to do in terms of their streams, C10 and C16)
extern func (r column.Reader) NextBatch(vec)
  modifies r.left, vec.held, vec.nrows, vec.Vector
  ensures err == nil && old(vec.nrows) <= len(old(r.left)) ==> vec.nrows == old(vec.nrows) && vec.held == old(r.left)[:vec.nrows] && r.left == old(r.left)[vec.nrows:]
extern func (r column.Reader) SeekStride(stride)
  modifies r.left
  ensures err == nil && stride == 0 ==> r.left == r.every
extern func (r column.Reader) Skip(rows)
  modifies r.left
  ensures err == nil && rows <= len(old(r.left)) ==> r.left == old(r.left)[rows:]

// vectors of a tree of columns
extern func (v *api.ColumnVector) Clear()
  modifies v.nrows, v.Vector, v.held
  ensures v.nrows == 0
extern func (v api.ColumnVector) Len() pure byref
  ensures ret0 == v.nrows
extern func (v api.ColumnVector) Cap() pure byref
  ensures ret0 == v.room
extern func (s *stripeReader) setVectorSize(size, vec)
  requires 0 <= size <= vec.room
  modifies vec.nrows, vec.Vector, vec.held
  ensures vec.nrows == size

fn sfix(s *stripeReader) bool = s != nil && s.columnReader != nil && ref(s.columnReader) != ref(s) && len(s.columnReader.every) == s.numberOfRows && s.numberOfRows <= 4611686018427387904
fn sstate(s *stripeReader) bool = s.cursor <= s.numberOfRows && s.columnReader.left == s.columnReader.every[s.cursor:]

func (s *stripeReader) next(vec)
  property C12, C16
  requires sfix(s) && sstate(s) && s.cursor < s.numberOfRows && vec != nil && ref(vec) != ref(s.columnReader) && vec.nrows == 0 && 0 < vec.room <= 4611686018427387904
  modifies s.cursor, s.columnReader.left, vec.nrows, vec.Vector, vec.held
  ensures size: err == nil ==> vec.nrows == (vec.room < s.numberOfRows - old(s.cursor) ? vec.room : s.numberOfRows - old(s.cursor))
  ensures rows: err == nil ==> vec.held == s.columnReader.every[old(s.cursor):][:vec.nrows]
  ensures moves: err == nil ==> s.cursor == old(s.cursor) + vec.nrows && sstate(s)
  ensures end: err == nil ==> (ret0 <==> s.cursor == s.numberOfRows)

func (s *stripeReader) Seek(rowNumber)
  property C12, C16
  requires sfix(s) && rowNumber <= s.numberOfRows
  modifies s.cursor, s.columnReader.left
  ensures at: err == nil ==> s.cursor == rowNumber && sstate(s)

// the stripes of a file, their rows
fn stripesok(b *batchReader) bool = len(b.stripes) > 0 && len(b.frows) == b.numberOfRows && b.numberOfRows <= 4611686018427387904 &&
  (forall i int {b.stripes[i]} :: 0 <= i < len(b.stripes) ==> sfix(b.stripes[i]) && b.stripes[i].numberOfRows > 0 && 0 <= b.stripes[i].first && b.stripes[i].first + b.stripes[i].numberOfRows <= b.numberOfRows &&
     (i + 1 < len(b.stripes) ? b.stripes[i+1].first : b.numberOfRows) == b.stripes[i].first + b.stripes[i].numberOfRows && b.stripes[i].columnReader.every == b.frows[b.stripes[i].first:][:b.stripes[i].numberOfRows]) &&
  (forall i int, j int {b.stripes[i], b.stripes[j]} :: 0 <= i < j < len(b.stripes) ==> b.stripes[i] != b.stripes[j] && ref(b.stripes[i].columnReader) != ref(b.stripes[j].columnReader)) &&
  b.stripes[0].first == 0
// what comes next is row b.cursor
fn at(b *batchReader) bool = b.cursor <= b.numberOfRows && 0 <= b.stripeIndex < len(b.stripes) && (b.cursor < b.numberOfRows ==>
   b.cursor == b.stripes[b.stripeIndex].first + b.stripes[b.stripeIndex].cursor && b.stripes[b.stripeIndex].cursor < b.stripes[b.stripeIndex].numberOfRows && sstate(b.stripes[b.stripeIndex]) &&
   (forall j int {b.stripes[j]} :: b.stripeIndex < j < len(b.stripes) ==> b.stripes[j].cursor == 0 && sstate(b.stripes[j])))

func (b *batchReader) Next(batch)
  property C12, C16
  requires stripesok(b) && at(b) && batch != nil && 0 < batch.room <= 4611686018427387904
  requires apart: forall i int {b.stripes[i]} :: 0 <= i < len(b.stripes) ==> ref(b.stripes[i].columnReader) != ref(batch)
  modifies b.cursor, b.stripeIndex, b.stripes[b.stripeIndex].cursor, b.stripes[b.stripeIndex].columnReader.left, batch.nrows, batch.Vector, batch.held
  ensures rows: err == nil && old(b.cursor) < b.numberOfRows ==> 0 < batch.nrows <= batch.room && old(b.cursor) + batch.nrows <= b.numberOfRows && batch.held == b.frows[old(b.cursor):][:batch.nrows]
  ensures none: old(b.cursor) >= b.numberOfRows ==> err == nil && batch.nrows == 0
  ensures moves: err == nil ==> b.cursor == old(b.cursor) + batch.nrows && at(b)
  ensures end: err == nil ==> (ret0 <==> b.cursor == b.numberOfRows)
  loop 1
    invariant b.cursor == old(b.cursor) && b.stripeIndex == old(b.stripeIndex) && batch.nrows == 0 && at(b) && b.cursor < b.numberOfRows

func (b *batchReader) Seek(rowNumber)
  property C12, C16
  requires stripesok(b)
  modifies b.cursor, b.stripeIndex, each(*stripeReader).cursor, each(column.Reader).left
  ensures refused: rowNumber >= b.numberOfRows ==> err != nil
  ensures found: err == nil ==> b.cursor == rowNumber && at(b)
  loop 1
    invariant 0 <= i <= len(b.stripes) && rows == (i < len(b.stripes) ? b.stripes[i].first : b.numberOfRows) && rows <= rowNumber
  loop 2
    invariant sstate(b.stripes[i]) && b.stripes[i].cursor == rowNumber - rows && forall j int {b.stripes[j]} :: i < j <= i + $n ==> b.stripes[j].cursor == 0 && sstate(b.stripes[j])
