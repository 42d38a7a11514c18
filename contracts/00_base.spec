// Contracts of the standard library and of dependencies (assumed, listed as
// trusted in the evidence).  A reader or buffer is described by the bytes that
// remain to be read (content).
package encoding

ghost field content []byte

// a reader that fails only when its bytes are exhausted
ghost field good bool
fn healthy(r any) bool = r.good

ignore logger.Tracef, logrus.Debugf, logrus.Tracef, logrus.Infof, logrus.Errorf, logrus.Error, logrus.Debug, logrus.Trace, logrus.Info, logrus.Warn, logrus.Logger.Tracef, logrus.Logger.Debugf, logrus.Logger.Infof, logrus.Logger.Warnf, logrus.Logger.Errorf,
 logrus.Logger.Error, logrus.Warnf, logrus.Logger.Debug, logrus.Logger.Info, logrus.Logger.Trace, logrus.Logger.Warn, logrus.Logger.IsLevelEnabled, logrus.Logger.Warning, logrus.Logger.Debugln, logrus.Logger.SetLevel

extern func (b *bytes.Buffer) WriteByte(c)
  modifies b.content
  ensures b.content == snoc(old(b.content), c)
  ensures err == nil

extern func (b *bytes.Buffer) Write(p)
  modifies b.content
  ensures b.content == old(b.content) ++ p
  ensures ret0 == len(p) && err == nil

extern func (b *bytes.Buffer) WriteString(p)
  modifies b.content
  ensures b.content == old(b.content) ++ p
  ensures ret0 == len(p) && err == nil

extern func (b *bytes.Buffer) Len() pure
  ensures ret0 == len(b.content)
  ensures memory: ret0 <= 281474976710656

extern func (b *bytes.Buffer) Bytes() pure
  ensures ret0 == b.content

extern func (b *bytes.Buffer) Reset()
  modifies b.content
  ensures b.content == empty([]byte)

extern func (b *bytes.Buffer) Truncate(n)
  requires 0 <= n <= len(b.content)
  modifies b.content
  ensures b.content == old(b.content)[:n]

extern func (b *bytes.Buffer) ReadByte()
  modifies b.content
  ensures err == nil <==> len(old(b.content)) > 0
  ensures err == nil ==> ret0 == old(b.content)[0] && b.content == old(b.content)[1:]
  ensures err != nil ==> b.content == old(b.content)

extern func (r io.ByteReader) ReadByte()
  property C07, C08
  modifies r.content
  ensures err == nil ==> len(old(r.content)) > 0 && ret0 == old(r.content)[0] && r.content == old(r.content)[1:]
  ensures healthy(r) && len(old(r.content)) > 0 ==> err == nil

extern func errors.New(s) pure
  ensures ret0 != nil
extern func errors.Errorf(s, ...) pure
  ensures ret0 != nil
extern func errors.WithStack(e) pure
  ensures ret0 == nil <==> e == nil
extern func errors.Wrap(e, s) pure
  ensures ret0 == nil <==> e == nil
extern func errors.Wrapf(e, s, ...) pure
  ensures ret0 == nil <==> e == nil
extern func fmt.Errorf(s, ...) pure
  ensures ret0 != nil
// texts that strconv.ParseFloat accepts, among them those of %f
fn floattext(s string) bool opaque
extern func fmt.Sprintf(s, ...) pure
  ensures len(s) == 2 && s[0] == 37 && s[1] == 102 ==> floattext(ret0)

// Encoders: the bytes emitted since the encoder was created or last reset, and the values given to it
ghost field emitted []byte
ghost field given []uint64
ghost field givenb []bool
ghost field given8 []byte
fn encnew(e any) bool = e.emitted == empty([]byte) && e.given == empty([]uint64) && e.givenb == empty([]bool) && e.given8 == empty([]byte)
