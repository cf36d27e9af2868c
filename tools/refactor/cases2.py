"""More edits that keep the behaviour: (name, obligations, [(file, old, new)]).
An old text "FUNC:<start of a declaration>" stands for the whole function."""
R = "parse/reader/reader.go"
CASES = [
("sticky-reader", "O_Tag04|O_Tag20", [
("parse/tags/tag04.go", "FUNC:func (t *tag04) Parse()", '''type fieldReader struct {
	r   *reader.Reader
	err error
}

func (f *fieldReader) octet(what string) byte {
	if f.err != nil {
		return 0
	}
	b, err := f.r.ReadByte()
	if err != nil {
		f.err = errs.New("illegal "+what, errs.WithCause(err))
	}
	return b
}

func (f *fieldReader) octets(n int64, what string) []byte {
	if f.err != nil {
		return nil
	}
	b, err := f.r.ReadBytes(n)
	if err != nil {
		f.err = errs.New("illegal "+what, errs.WithCause(err))
	}
	return b
}

// Parse parsing tag04 instance
func (t *tag04) Parse() (*result.Item, error) {
	root := t.ToItem()
	in := &fieldReader{r: t.reader}
	debug := t.cxt.Debug()
	if v := in.octet("version"); in.err == nil {
		root.Add(values.OneSigVer(v).ToItem(debug))
	}
	if v := in.octet("sigid"); in.err == nil {
		root.Add(values.SigID(v).ToItem(debug))
	}
	if v := in.octet("hashid"); in.err == nil {
		root.Add(values.HashID(v).ToItem(debug))
	}
	if v := in.octet("pubid"); in.err == nil {
		root.Add(values.PubID(v).ToItem(debug))
	}
	if v := in.octets(8, "keyid"); in.err == nil {
		root.Add(values.NewKeyID(v).ToItem())
	}
	flag := in.octet("flag")
	if in.err != nil {
		return root, in.err
	}
	name := "other than one pass signature"
	if flag == 0 {
		name = "another one pass signature"
	}
	root.Add(result.NewItem(
		result.Name("Encrypted session key"),
		result.Value(name),
		result.Note(fmt.Sprintf("flag %#02x", flag)),
	))
	if t.reader.Rest() > 0 {
		root.Add(values.RawData(t.reader, "Unknown data", debug))
	}
	return root, nil
}
'''),
]),
("field-table", "O_Tag02|O_Tag04", [
("parse/tags/tag04.go", '''	// [01] one-octet signature type
	sig, err := t.reader.ReadByte()
	if err != nil {
		return rootInfo, errs.New("illegal sigid", errs.WithCause(err))
	}
	rootInfo.Add(values.SigID(sig).ToItem(t.cxt.Debug()))
	// [02] one-octet number describing the hash algorithm used.
	hashid, err := t.reader.ReadByte()
	if err != nil {
		return rootInfo, errs.New("illegal hashid", errs.WithCause(err))
	}
	rootInfo.Add(values.HashID(hashid).ToItem(t.cxt.Debug()))
	// [03] one-octet number describing the public-key algorithm used.
	pubid, err := t.reader.ReadByte()
	if err != nil {
		return rootInfo, errs.New("illegal pubid", errs.WithCause(err))
	}
	rootInfo.Add(values.PubID(pubid).ToItem(t.cxt.Debug()))
''', '''	for _, field := range []struct {
		what string
		item func(byte) *result.Item
	}{
		{"sigid", func(b byte) *result.Item { return values.SigID(b).ToItem(t.cxt.Debug()) }},
		{"hashid", func(b byte) *result.Item { return values.HashID(b).ToItem(t.cxt.Debug()) }},
		{"pubid", func(b byte) *result.Item { return values.PubID(b).ToItem(t.cxt.Debug()) }},
	} {
		b, err := t.reader.ReadByte()
		if err != nil {
			return rootInfo, errs.New("illegal "+field.what, errs.WithCause(err))
		}
		rootInfo.Add(field.item(b))
	}
'''),
("parse/tags/tag02.go", '''	switch true {
	case version.IsDraft():
		_, err := t.parseV5(rootInfo)
		if err != nil {
			return rootInfo, errs.Wrap(err)
		}
	case version.IsCurrent():
		_, err := t.parseV4(rootInfo)
		if err != nil {
			return rootInfo, errs.Wrap(err)
		}
	case version.IsOld():
		if version.Number() == 3 {
			_, err2 := t.parseV3(rootInfo)
			if err2 != nil {
				return rootInfo, errs.Wrap(err2)
			}
		}
	}
''', '''	parsers := map[int]func(*result.Item) (*result.Item, error){3: t.parseV3, 4: t.parseV4, 5: t.parseV5}
	if parse, ok := parsers[version.Number()]; ok {
		if _, err := parse(rootInfo); err != nil {
			return rootInfo, errs.Wrap(err)
		}
	}
'''),
]),
("mpi-loop", "O_Tag0[256]|O_Tag14", [
("parse/pubkey/parse_pub.go", "FUNC:func (p *Pubkey) dsaPub(", '''func (p *Pubkey) integers(item *result.Item, names ...string) error {
	for _, name := range names {
		n, err := values.NewMPI(p.reader)
		if err != nil {
			return errs.Wrap(err)
		}
		item.Add(n.ToItem(name, p.cxt.Integer()))
	}
	return nil
}

func (p *Pubkey) dsaPub(item *result.Item) error {
	return p.integers(item, "DSA p", "DSA q (q is a prime divisor of p-1)", "DSA g", "DSA y (= g^x mod p where x is secret)")
}
'''),
("parse/pubkey/parse_pub.go", "FUNC:func (p *Pubkey) rsaPub(", '''func (p *Pubkey) rsaPub(item *result.Item) error {
	return p.integers(item, "RSA public modulus n", "RSA public encryption exponent e")
}
'''),
("parse/pubkey/parse_pub.go", "FUNC:func (p *Pubkey) ecdsaPub(", '''func (p *Pubkey) point(item *result.Item, alg string) error {
	oid, err := values.NewOID(p.reader)
	if err != nil {
		return errs.Wrap(err)
	}
	item.Add(oid.ToItem(true)) //enable dump data

	mpi, err := values.NewMPI(p.reader)
	if err != nil {
		return errs.Wrap(err)
	}
	format := byte(0xff)
	if body := mpi.Rawdata(); len(body) > 0 {
		format = body[0]
	}
	item.Add(mpi.ToItem(values.ECCPointCompFlag(format).Name(alg), p.cxt.Integer()))
	return nil
}

func (p *Pubkey) ecdsaPub(item *result.Item) error {
	return p.point(item, "ECDSA")
}
'''),
("parse/pubkey/parse_pub.go", "FUNC:func (p *Pubkey) eddsaPub(", '''func (p *Pubkey) eddsaPub(item *result.Item) error {
	return p.point(item, "EdDSA")
}
'''),
("parse/pubkey/parse_pub.go", '''	i := ep.ToItem("KDF parameters", p.cxt.Integer())
	ln := len(ep)
	if ln > 0 {
		switch ep[0] {
		case 0x01:
			if ln > 2 {
				i.Add(values.HashID(ep[1]).ToItem(p.cxt.Debug()))
				i.Add(values.SymID(ep[2]).ToItem(p.cxt.Debug()))
			} else {
				i.Value = values.Unknown
			}
		default:
			i.Value = values.Unknown
		}
	} else {
		i.Value = values.Unknown
	}
	item.Add(i)
''', '''	kdf := ep.ToItem("KDF parameters", p.cxt.Integer())
	item.Add(kdf)
	if len(ep) < 3 || ep[0] != 1 {
		kdf.Value = values.Unknown
		return nil
	}
	for i, v := range ep[1:3] {
		if i == 0 {
			kdf.Add(values.HashID(v).ToItem(p.cxt.Debug()))
		} else {
			kdf.Add(values.SymID(v).ToItem(p.cxt.Debug()))
		}
	}
'''),
]),
("alg-table", "O_Tag0[256]", [
("parse/pubkey/parse_pub.go", "FUNC:func (p *Pubkey) ParsePub(", '''func (p *Pubkey) ParsePub(parent *result.Item) error {
	var parse func(*result.Item) error
	switch id := p.pubID; {
	case id == 1, id == 2, id == 3:
		parse = p.rsaPub
	case id.IsDSA():
		parse = p.dsaPub
	case id == 16 || id == 20:
		parse = p.elgPub
	case id.IsECDH():
		parse = p.ecdhPub
	case id.IsECDSA():
		parse = p.ecdsaPub
	case id.IsEdDSA():
		parse = p.eddsaPub
	}
	if parse != nil {
		return errs.Wrap(parse(parent))
	}
	item := &result.Item{Name: fmt.Sprintf("Multi-precision integers of Unknown (pub %d)", p.pubID)}
	item.Note = fmt.Sprintf("%d bytes", p.size)
	item.Dump = values.Dump(p.reader, p.cxt.Debug()).String()
	parent.Add(item)
	return nil
}
'''),
]),
("seckey-notes", "O_Tag05|O_Tag07", [
("parse/tags/seckey.go", '''		case 253:
			parent.Note = "s2k usage 253; encrypted secret-key material and AEAD authentication tag"
			if err := pubkey.New(p.cxt, p.pubID, rOpt).ParseSecEnc(parent); err != nil {
				return errs.New(
					"illegal pubkey",
					errs.WithContext("s2k_usage", usage),
					errs.WithCause(err),
				)
			}
		case 254:
			parent.Note = "s2k usage 254; encrypted secret-key material and 20-octet SHA-1 hash"
			if err := pubkey.New(p.cxt, p.pubID, rOpt).ParseSecEnc(parent); err != nil {
				return errs.New(
					"illegal pubkey",
					errs.WithContext("s2k_usage", usage),
					errs.WithCause(err),
				)
			}
		default:
			parent.Note = fmt.Sprintf("s2k usage %d; encrypted secret-key material and 2-octet checksum", usage)
''', '''		default:
			tail := "2-octet checksum"
			switch usage {
			case 253:
				tail = "AEAD authentication tag"
			case 254:
				tail = "20-octet SHA-1 hash"
			}
			parent.Note = fmt.Sprintf("s2k usage %d; encrypted secret-key material and %s", usage, tail)
'''),
("parse/tags/seckey.go", '''		if p.pubVer.Number() == 5 {
			if rOpt.Rest() > 0 {
				parent.Add(values.RawData(rOpt, "Unknown data", p.cxt.Debug()))
			}
		}
	}
	return nil
''', '''		p.leftover(parent, rOpt)
	}
	return nil
'''),
("parse/tags/seckey.go", '''		if p.pubVer.Number() == 5 {
			if rOpt.Rest() > 0 {
				parent.Add(values.RawData(rOpt, "Unknown data", p.cxt.Debug()))
			}
		}
	}
''', '''		p.leftover(parent, rOpt)
	}
'''),
("parse/tags/seckey.go", '''//getField1 returns''', '''func (p *seckeyInfo) leftover(parent *result.Item, r *reader.Reader) {
	if p.pubVer.Number() != 5 || r.Rest() <= 0 {
		return
	}
	parent.Add(values.RawData(r, "Unknown data", p.cxt.Debug()))
}

//getField1 returns'''),
("parse/tags/seckey.go", '''		ll := binary.BigEndian.Uint32(l)
''', '''		var ll uint32
		for _, b := range l {
			ll = ll<<8 | uint32(b)
		}
'''),
("parse/tags/seckey.go", '''	"encoding/binary"
''', ""),
]),
("s2k-methods", "O_Tag03|O_Tag05", [
("parse/s2k/s2k.go", "FUNC:func (s *S2K) Parse(", '''func (s *S2K) Parse(parent *result.Item, dumpFlag bool) error {
	if s == nil {
		return nil
	}
	ss, err := s.reader.ReadByte()
	if err != nil {
		return errs.New("invalid s2k ID", errs.WithCause(err))
	}
	itm := values.S2KID(ss).ToItem(dumpFlag)
	parent.Add(itm)
	switch ss {
	case 0:
		return s.hash(itm, dumpFlag)
	case 1:
		if err := s.hash(itm, dumpFlag); err != nil {
			return err
		}
		return s.salt(itm)
	case 3:
		for _, f := range []func() error{
			func() error { return s.hash(itm, dumpFlag) },
			func() error { return s.salt(itm) },
			func() error { return s.count(itm) },
		} {
			if err := f(); err != nil {
				return err
			}
		}
	case 101:
		return s.gnu(itm)
	}
	return nil
}

func (s *S2K) hash(itm *result.Item, dumpFlag bool) error {
	id, err := s.reader.ReadByte()
	if err != nil {
		return errs.New("invalid hash ID", errs.WithCause(err))
	}
	itm.Add(values.HashID(id).ToItem(dumpFlag))
	return nil
}

func (s *S2K) salt(itm *result.Item) error {
	salt, err := s.reader.ReadBytes(8)
	if err == nil {
		itm.Add(values.Salt(salt).ToItem(true))
		return nil
	}
	return errs.New("invalid salt ID", errs.WithCause(err))
}

func (s *S2K) count(itm *result.Item) error {
	ct, err := s.reader.ReadByte()
	if err == nil {
		itm.Add(values.Stretch(ct).ToItem())
		return nil
	}
	return errs.New("invalid stretch count ID", errs.WithCause(err))
}

func (s *S2K) gnu(itm *result.Item) error {
	if s.reader.Rest() < 4 {
		return nil
	}
	pos := s.reader.Size() - s.reader.Rest()
	mrk, err := s.reader.ReadBytes(3)
	if err != nil {
		return errs.New("invalid gnu-div", errs.WithCause(err))
	}
	if string(mrk) != "GNU" {
		if _, err := s.reader.Seek(pos, io.SeekStart); err != nil {
			return errs.New("roll back error", errs.WithCause(err))
		}
		return nil
	}
	s.hasIV = false
	n, err := s.reader.ReadByte()
	if err != nil {
		return errs.New("invalid gnu-div num", errs.WithCause(err))
	}
	gnu := result.NewItem(
		result.Name("GNU-divert-to-card"),
		result.Value("Extension Number "+strconv.Itoa(1000+int(n))),
	)
	if n == 2 {
		l, err := s.reader.ReadByte()
		if err != nil {
			return errs.New("invalid gnu-div s/n size", errs.WithCause(err))
		}
		ser, err := s.reader.ReadBytes(int64(l))
		if err != nil {
			return errs.New("invalid gnu-div s/n", errs.WithCause(err))
		}
		gnu.Add(result.NewItem(
			result.Name("Serial Number"),
			result.DumpStr(values.DumpBytes(ser, true).String()),
		))
	}
	itm.Add(gnu)
	return nil
}
'''),
("parse/s2k/s2k.go", '''	"bytes"
	"fmt"
	"io"
''', '''	"io"
	"strconv"
'''),
]),
("oid-slice", "O_Tag06|O_Tag01|O_Tag02", [
("parse/values/ecc.go", "FUNC:func (oid OID) String()", '''func (oid OID) String() string {
	switch string(oid) {
	case "\\x2a\\x86\\x48\\xce\\x3d\\x03\\x01\\x07":
		return "nistp256 (256bits key size)"
	case "\\x2b\\x81\\x04\\x00\\x0a":
		return "secp256k1 (256bits key size)"
	}
	for name, v := range oidList {
		if len(v) != len(oid) {
			continue
		}
		if bytes.HasPrefix(oid, v) {
			return name
		}
	}
	return Unknown
}
'''),
("parse/values/ecc.go", "FUNC:func NewECParm(", '''func NewECParm(r *reader.Reader) (ECParm, error) {
	if r.Rest() < 1 {
		return nil, nil // not error
	}
	length, _ := r.ReadByte()
	buf, err := r.ReadBytes(int64(length))
	if err != nil {
		return nil, errs.New(fmt.Sprintf("length of ECParm body: %v", length), errs.WithCause(err))
	}
	return buf, nil
}
'''),
]),
("time-field", "O_Sub0[239]|O_Tag11|O_Tag06|O_Tag02", [
("parse/values/datetime.go", '''	tm      []byte
	utcFlag bool
''', '''	seconds uint32
	utcFlag bool
'''),
("parse/values/datetime.go", '''	return &DateTime{tm: tm, utcFlag: utcFlag}, nil
''', '''	return &DateTime{seconds: binary.BigEndian.Uint32(tm), utcFlag: utcFlag}, nil
'''),
("parse/values/datetime.go", '''		result.DumpStr(DumpBytes(dt.tm, dumpFlag).String()),
	)
}
''', '''		result.DumpStr(dt.dump(dumpFlag)),
	)
}

func (dt *DateTime) dump(f bool) string {
	tm := make([]byte, 4)
	binary.BigEndian.PutUint32(tm, dt.seconds)
	return DumpBytes(tm, f).String()
}
'''),
("parse/values/datetime.go", '''	return binary.BigEndian.Uint32(dt.tm)
''', '''	return dt.seconds
'''),
("parse/values/datetime.go", '''			result.DumpStr(DumpBytes(dt.tm, dumpFlag).String()),
''', '''			result.DumpStr(dt.dump(dumpFlag)),
'''),
]),
("context-array", "O_Option.*|O_Tag1[01]|O_Tag02|O_Parse", [
("parse/context/context.go", '''	options map[OptCode]bool
''', '''	options [UTC + 1]bool
'''),
("parse/context/context.go", '''	c := &Context{options: map[OptCode]bool{}, SymAlgMode: ModeNotSpecified}
''', '''	c := &Context{SymAlgMode: ModeNotSpecified}
'''),
("parse/context/context.go", '''	if code.integer() > 0 {
''', '''	if code > UNKNOWN && int(code) < len(c.options) {
'''),
("parse/context/context.go", '''	if f, ok := c.options[code]; ok {
		return f
	}
	return false
''', '''	if code < 0 || int(code) >= len(c.options) {
		return false
	}
	return c.options[code]
'''),
]),
("context-bits", "O_Option.*|O_Tag1[01]|O_Tag02|O_Parse", [
("parse/context/context.go", '''	options map[OptCode]bool
''', '''	options uint32
'''),
("parse/context/context.go", '''	c := &Context{options: map[OptCode]bool{}, SymAlgMode: ModeNotSpecified}
''', '''	c := &Context{SymAlgMode: ModeNotSpecified}
'''),
("parse/context/context.go", '''	if code.integer() > 0 {
		c.options[code] = f
	}
''', '''	if code <= UNKNOWN || code > UTC {
		return
	}
	if f {
		c.options |= 1 << uint(code)
	} else {
		c.options &^= 1 << uint(code)
	}
'''),
("parse/context/context.go", '''	if f, ok := c.options[code]; ok {
		return f
	}
	return false
''', '''	return code > UNKNOWN && code <= UTC && c.options>>uint(code)&1 == 1
'''),
("parse/context/context.go", "FUNC:func (c *Context) Cert()", '''func (c *Context) Cert() bool { return c.any(CERT, DEBUG) }

func (c *Context) any(codes ...OptCode) bool {
	for _, code := range codes {
		if c.Get(code) {
			return true
		}
	}
	return false
}

//Debug return flag value of debugFlag
func (c *Context) Debug() bool { return c.Get(DEBUG) }

//GDump return flag value of gdumpFlag
func (c *Context) GDump() bool { return c.any(GDUMP, DEBUG) }

//Integer return flag value of intFlag
func (c *Context) Integer() bool { return c.any(INTEGER, DEBUG) }

//Literal return flag value of literalFlag
func (c *Context) Literal() bool { return c.any(LITERAL, DEBUG) }

//Marker return flag value of markerFlag
func (c *Context) Marker() bool { return c.any(MARKER, DEBUG) }

//Private return flag value of privateFlag
func (c *Context) Private() bool { return c.any(PRIVATE, DEBUG) }

//UTC return flag value of utcFlag
func (c *Context) UTC() bool { return c.Get(UTC) }

//Stringer
func (c *Context) String() string {
	strs := []string{}
	for cd := 1; cd <= len(optcodeMap); cd++ {
		flag := false
		switch OptCode(cd) {
		case ARMOR:
			flag = c.Armor()
		case CERT:
			flag = c.Cert()
		case DEBUG:
			flag = c.Debug()
		case GDUMP:
			flag = c.GDump()
		case INTEGER:
			flag = c.Integer()
		case LITERAL:
			flag = c.Literal()
		case MARKER:
			flag = c.Marker()
		case PRIVATE:
			flag = c.Private()
		case UTC:
			flag = c.UTC()
		}
		strs = append(strs, fmt.Sprintf("%v:%v", OptCode(cd), flag))
	}
	return strings.Join(strs, ",")
}
'''),
]),
("reader-rest", "O_Reader.*|O_Dump.*|O_Tag1[0-3]|O_Sub20|O_Tag01", [
# the reader keeps what is left instead of a position
(R, '''	offset int64
}
''', '''	rest   []byte
}
'''),
(R, '''	return &Reader{buffer: data, offset: 0}
''', '''	return &Reader{buffer: data, rest: data}
'''),
(R, '''		r.offset = r.Size()
	}
	return size, errs.Wrap(err)
''', '''		r.rest = nil
	}
	return size, errs.Wrap(err)
'''),
(R, "FUNC:func (r *Reader) Seek(", '''func (r *Reader) Seek(offset int64, whence int) (int64, error) {
	pos := r.Size() - r.Rest()
	base := map[int]int64{io.SeekStart: 0, io.SeekCurrent: pos, io.SeekEnd: r.Size()}
	origin, ok := base[whence]
	if !ok {
		return pos, errs.Wrap(
			ecode.ErrInvalidWhence,
			errs.WithContext("offset", offset),
			errs.WithContext("whence", whence),
		)
	}
	if offset < -origin || offset > r.Size()-origin {
		return pos, errs.Wrap(
			ecode.ErrInvalidOffset,
			errs.WithContext("offset", offset),
			errs.WithContext("whence", whence),
		)
	}
	r.rest = r.buffer[origin+offset:]
	return origin + offset, nil
}
'''),
(R, "FUNC:func (r *Reader) Rest()", '''func (r *Reader) Rest() int64 {
	return int64(len(r.rest))
}
'''),
(R, "FUNC:func (r *Reader) ReadBytes(", '''func (r *Reader) ReadBytes(size int64) ([]byte, error) {
	if size == 0 {
		return nil, nil
	}
	if len(r.rest) == 0 {
		return nil, errs.Wrap(io.EOF, errs.WithContext("size", size))
	}
	if size < 0 || size > r.Rest() {
		return nil, errs.Wrap(io.ErrUnexpectedEOF, errs.WithContext("size", size))
	}
	var b []byte
	b, r.rest = r.rest[:size], r.rest[size:]
	return b, nil
}
'''),
(R, "FUNC:func (r *Reader) Read2EOF(", '''func (r *Reader) Read2EOF() ([]byte, error) {
	if len(r.rest) == 0 {
		return nil, errs.Wrap(io.EOF)
	}
	b := r.rest
	r.rest = nil
	return b, nil
}
'''),
]),
("reader-readbyte", "O_Reader.*|O_Tag1[0-3]|O_Tag01", [
(R, "FUNC:func (r *Reader) ReadByte(", '''func (r *Reader) ReadByte() (c byte, err error) {
	if r.Rest() <= 0 {
		err = errs.Wrap(io.EOF, errs.WithContext("size", 1))
		return
	}
	c = r.buffer[r.offset]
	r.offset++
	return
}
'''),
(R, "FUNC:func (r *Reader) Read(", '''func (r *Reader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	switch rest := r.Rest(); {
	case rest <= 0:
		return 0, errs.Wrap(io.EOF, errs.WithContext("length", len(p)))
	case rest < int64(len(p)):
		return 0, errs.Wrap(io.ErrUnexpectedEOF, errs.WithContext("length", len(p)))
	}
	n := copy(p, r.buffer[r.offset:])
	r.offset += int64(n)
	return n, nil
}
'''),
]),
("items-struct", "O_Tag0[1-6]|O_Tag20|O_Add|O_Sub20", [
("parse/result/result.go", "FUNC:func NewItem(", '''func NewItem(opts ...ItemOpt) *Item {
	var i Item
	for n := range opts {
		opts[n](&i)
	}
	return &i
}
'''),
("parse/values/mpi.go", '''	return result.NewItem(
		result.Name(name),
		result.Note(fmt.Sprintf("%d bits", mpi.bitLength)),
		result.DumpStr(DumpBytes(mpi.data, dumpFlag).String()),
	)
''', '''	item := &result.Item{Name: name, Note: fmt.Sprintf("%d bits", mpi.bitLength)}
	if dumpFlag {
		item.Dump = DumpBytes(mpi.data, true).String()
	}
	return item
'''),
("parse/values/version.go", '''	var note string
	switch true {
	case v.IsOld():
		note = "old"
	case v.IsCurrent():
		note = "current"
	case v.IsDraft():
		note = "draft"
	default:
		note = "unknown"
	}
''', '''	note := "unknown"
	if v.ver < v.cur {
		note = "old"
	} else if v.ver == v.cur {
		note = "current"
	} else if v.draft != 0 && v.ver == v.draft {
		note = "draft"
	}
'''),
("parse/values/version.go", '''	return strconv.Itoa(int(v.ver))
''', '''	return strconv.FormatUint(uint64(v.ver), 10)
'''),
("parse/tags/tag20.go", '''		result.Value(strconv.FormatUint(chunkSize, 10)),
''', '''		result.Value(fmt.Sprint(chunkSize)),
'''),
("parse/tags/tag20.go", '''	"strconv"
''', ""),
]),
("ranges", "O_Tag0[1-4]|O_Sub.*|O_Tag20", [
("parse/values/symid.go", "FUNC:func (s SymID) IVLen(", '''func (s SymID) IVLen() int {
	switch {
	case s <= 6:
		return 8
	case s < 14:
		return 16
	}
	return 0
}
'''),
("parse/values/symid.go", '''	0:  8,  //Plaintext or unencrypted data
	1:  8,  //IDEA
''', '''	0:  8,  //Plaintext or unencrypted data
'''),
("parse/values/pubid.go", "FUNC:func (pi PubID) String(", '''func (pi PubID) String() string {
	name, ok := pubIDNames[int(pi)]
	switch {
	case ok:
	case pi >= 100 && pi < 111:
		name = PrivateAlgName
	default:
		name = Unknown
	}
	return name + fmt.Sprintf(" (pub %d)", pi)
}
'''),
("parse/values/subpacketid.go", "FUNC:func (s SuboacketID) String(", '''func (s SuboacketID) String() string {
	id := int(s) % 128
	name, ok := subpacketNames[id]
	if !ok {
		name = Unknown
		if 100 <= id && id <= 110 {
			name = "Private or experimental"
		}
	}
	if s >= 128 {
		name += " <critical>"
	}
	return fmt.Sprintf("%s (sub %d)", name, id)
}
'''),
("parse/tags/sub12.go", '''	if (class & 0x80) != 0x00 {
		switch true {
		case (class & 0x40) != 0x00:
			itm.Value = "Sensitive"
		default:
			itm.Value = "Normal"
		}
	} else {
		itm.Value = "Unknown"
	}
''', '''	itm.Value = [4]string{"Unknown", "Unknown", "Normal", "Sensitive"}[class>>6]
'''),
]),
("keyid", "O_Tag0[124]|O_Sub16", [
("parse/values/keyid.go", "FUNC:func NewKeyID(", '''func NewKeyID(octets []byte) KeyID {
	var id KeyID
	for _, o := range octets[:8] {
		id = id<<8 + KeyID(o)
	}
	return id
}
'''),
("parse/values/keyid.go", '''	"encoding/binary"
''', ""),
]),
("dispatch", "O_Tag.*|O_Entry", [
("parse/tags/tags.go", "FUNC:func NewTag(", '''func NewTag(op *packet.OpaquePacket, cxt *context.Context) Tags {
	tag := values.TagID(op.Tag)
	var create NewPacket
	switch {
	case op.Tag == 2:
		// recursive call in tag02.Parse() -> sub32.Parse()
		create = newTag02
	case op.Tag >= 60 && op.Tag <= 63:
		create = newTagPrivate
	default:
		create = newFunctions.Get(int(op.Tag), newTagUnknown)
	}
	return create(cxt, tag, op.Contents)
}
'''),
]),
("notation", "O_Sub20", [
("parse/tags/sub20.go", '''	rootInfo.Add(values.Flag2Item(flags[0]&0x7f, fmt.Sprintf("Unknown flag1(%#02x)", flags[0]&0x7f)))
	rootInfo.Add(values.Flag2Item(flags[1], fmt.Sprintf("Unknown flag2(%#02x)", flags[1])))
	rootInfo.Add(values.Flag2Item(flags[2], fmt.Sprintf("Unknown flag3(%#02x)", flags[2])))
	rootInfo.Add(values.Flag2Item(flags[3], fmt.Sprintf("Unknown flag4(%#02x)", flags[3])))
''', '''	for i, f := range flags {
		if i == 0 {
			f &^= 0x80
		}
		rootInfo.Add(values.Flag2Item(f, fmt.Sprintf("Unknown flag%d(%#02x)", i+1, f)))
	}
'''),
("parse/tags/sub20.go", '''	name, err := s.reader.ReadBytes(int64(binary.BigEndian.Uint16(nameLength)))
	if err != nil {
		return rootInfo, errs.New(fmt.Sprintf("illegal name (length: %d bytes)", nameLength), errs.WithCause(err))
	}
	rootInfo.Add(values.NewText(name, "Name").ToItem(s.cxt.Debug()))
	value, err := s.reader.ReadBytes(int64(binary.BigEndian.Uint16(valueLength)))
	if err != nil {
		return rootInfo, errs.New(fmt.Sprintf("illegal value (length: %d bytes)", valueLength), errs.WithCause(err))
	}
	if human != 0x00 {
''', '''	field := func(length []byte, what string) ([]byte, error) {
		n := int64(length[0])<<8 | int64(length[1])
		b, err := s.reader.ReadBytes(n)
		if err != nil {
			return nil, errs.New(fmt.Sprintf("illegal %s (length: %d bytes)", what, n), errs.WithCause(err))
		}
		return b, nil
	}
	name, err := field(nameLength, "name")
	if err != nil {
		return rootInfo, err
	}
	rootInfo.Add(values.NewText(name, "Name").ToItem(s.cxt.Debug()))
	value, err := field(valueLength, "value")
	if err != nil {
		return rootInfo, err
	}
	if human != 0x00 {
'''),
("parse/tags/sub20.go", '''	"encoding/binary"
''', ""),
]),
("compressed-goto", "O_Tag08|O_Entry", [
("parse/tags/packets.go", '''	switch t := p.tag.(type) {
	case *Tag08: //Compressed Data Packet
		if r := t.Reader(); r != nil {
			sp, err := NewPackets(p.cxt, r)
			if err != nil {
				return item, errs.Wrap(err)
			}
			for {
				if err := sp.Next(); err != nil {
					if !errs.Is(err, io.EOF) { //EOF is not error
						return item, errs.Wrap(err)
					}
					break
				}
				itm, err := sp.tag.Parse()
				if err != nil {
					return item, errs.Wrap(err)
				}
				item.Add(itm)
			}
		}
	default:
	}
	return item, nil
}
''', '''	t, ok := p.tag.(*Tag08) //Compressed Data Packet
	if !ok || t.Reader() == nil {
		return item, nil
	}
	return item, p.contents(item, t.Reader())
}

func (p *Packets) contents(item *result.Item, r io.Reader) error {
	sp, err := NewPackets(p.cxt, r)
	if err != nil {
		return errs.Wrap(err)
	}
	for err = sp.Next(); err == nil; err = sp.Next() {
		itm, err := sp.tag.Parse()
		if err != nil {
			return errs.Wrap(err)
		}
		item.Add(itm)
	}
	if errs.Is(err, io.EOF) { //EOF is not error
		return nil
	}
	return errs.Wrap(err)
}
'''),
("parse/tags/Tag08.go", '''		var err error
		switch compID {
		case 0: //Uncompressed
			var zd []byte
			zd, err = t.reader.Read2EOF()
			if err != nil {
				rootInfo.Add(item)
				return rootInfo, errs.New("illegal compressed data", errs.WithCause(err))
			}
			t.data = bytes.NewReader(zd)
		case 1: //zip <RFC1951>
			t.data, err = t.extractZip()
		case 2: //zlib <RFC1950>
			t.data, err = t.extractZLib()
		case 3: //bzip2
			t.data, err = t.extractBzip2()
		default:
		}
		if err != nil && errs.Is(err, ecode.ErrTooLarge) {
			item.Value = strings.Join([]string{"<", err.Error(), ">"}, "")
			err = nil
		}
		rootInfo.Add(item)
		return rootInfo, errs.Wrap(err)
''', '''		rootInfo.Add(item)
		if compID > 3 {
			return rootInfo, nil
		}
		extract := []func() (io.Reader, error){t.stored, t.extractZip, t.extractZLib, t.extractBzip2}
		data, err := extract[compID]()
		t.data = data
		if errs.Is(err, ecode.ErrTooLarge) {
			item.Value = "<" + err.Error() + ">"
			return rootInfo, nil
		}
		return rootInfo, errs.Wrap(err)
'''),
("parse/tags/Tag08.go", '''func (t *Tag08) extractZip()''', '''func (t *Tag08) stored() (io.Reader, error) {
	zd, err := t.reader.Read2EOF()
	if err != nil {
		return nil, errs.New("illegal compressed data", errs.WithCause(err))
	}
	return bytes.NewReader(zd), nil
}

func (t *Tag08) extractZip()'''),
("parse/tags/Tag08.go", '''	"strings"
''', ""),
]),
("tree-print", "O_Show.*|O_JSON|O_Add", [
("parse/result/result.go", '''	fmt.Fprintf(buf, "%s%s", strings.Repeat(indent, lvl), i.Name)
	if len(i.Value) > 0 {
		fmt.Fprintf(buf, ": %s", i.Value)
	}
	if len(i.Note) > 0 {
		fmt.Fprintf(buf, " (%s)", i.Note)
	}
	buf.WriteString("\\n")
	if len(i.Dump) > 0 {
		fmt.Fprintf(buf, "%s%s\\n", strings.Repeat(indent, lvl+1), i.Dump)
	}
	if len(i.Items) > 0 {
		for _, itm := range i.Items {
			itm.toString(indent, lvl+1, buf)
		}
	}
	return buf
''', '''	pad := strings.Repeat(indent, lvl)
	parts := []string{pad, i.Name}
	if i.Value != "" {
		parts = append(parts, ": ", i.Value)
	}
	if i.Note != "" {
		parts = append(parts, " (", i.Note, ")")
	}
	parts = append(parts, "\\n")
	if i.Dump != "" {
		parts = append(parts, pad, indent, i.Dump, "\\n")
	}
	for _, s := range parts {
		_, _ = io.WriteString(buf, s)
	}
	for n := 0; n < len(i.Items); n++ {
		buf = i.Items[n].toString(indent, lvl+1, buf)
	}
	return buf
'''),
("parse/result/result.go", '''	if indent > 0 {
		b, err := json.MarshalIndent(i, "", strings.Repeat(" ", indent))
		return bytes.NewReader(b), errs.Wrap(err)
	}
	b, err := json.Marshal(i)
	return bytes.NewReader(b), errs.Wrap(err)
''', '''	var b []byte
	var err error
	if indent <= 0 {
		b, err = json.Marshal(i)
	} else {
		b, err = json.MarshalIndent(i, "", strings.Repeat(" ", indent))
	}
	return bytes.NewBuffer(b), errs.Wrap(err)
'''),
("parse/result/result.go", '''	"fmt"
''', ""),
]),
("option-fold", "O_Option.*|O_CommandOpt.*", [
("parse/context/options.go", '''		if strings.ToLower(s) == v {
''', '''		if strings.EqualFold(s, v) {
'''),
]),
("github-lower", "O_GitHub.*", [
("github/github.go", '''			if k != nil && strings.EqualFold(k.KeyID, strings.TrimPrefix(strings.ToLower(keyID), "0x")) {
''', '''			if k != nil && strings.ToLower(k.KeyID) == strings.TrimPrefix(strings.ToLower(keyID), "0x") {
'''),
]),
("github-upper", "O_GitHub.*", [
("github/github.go", '''	for i := 1; ; i++ {
''', '''	want := strings.TrimPrefix(strings.ToUpper(keyID), "0X")
	for i := 1; ; i++ {
'''),
("github/github.go", '''			if k != nil && strings.EqualFold(k.KeyID, strings.TrimPrefix(strings.ToLower(keyID), "0x")) {
''', '''			if k != nil && strings.ToUpper(k.KeyID) == want {
'''),
]),
("hkp-join", "O_HKP.*", [
("hkp/hkp.go", '''	return &url.URL{Scheme: s.prt.String(), Host: fmt.Sprintf("%s:%d", s.host, s.port)}
''', '''	return &url.URL{Scheme: s.prt.String(), Host: s.host + ":" + strconv.Itoa(s.port)}
'''),
("hkp/hkp.go", '''	"fmt"
''', '''	"strconv"
'''),
("hkp/hkp.go", '''	u := s.URL()
	u.Path = "/pks/lookup"
	u.RawQuery = values.Encode()

''', '''	u := s.URL().ResolveReference(&url.URL{Path: "/pks/lookup", RawQuery: values.Encode()})

'''),
]),
("armor-states", "O_ArmText", [
("armtext/armtext.go", '''	armorFlag := false
	armorEndFlag := false
	scn := bufio.NewScanner(r)
	for scn.Scan() {
		str := scn.Text()
		if !armorFlag {
			if strings.HasPrefix(str, armorBoundery) && !strings.HasPrefix(str, armorBounderyExcept) {
				armorFlag = true
			}
		}
		if armorFlag && !armorEndFlag {
			fmt.Fprintln(buf, str)
			if strings.HasPrefix(str, armorBounderyTerminate) {
				armorEndFlag = true
			}
		}
	}
	if err := scn.Err(); err != nil {
		return nil, errs.Wrap(err)
	}
	if !armorFlag || !armorEndFlag {
		return nil, errs.Wrap(ecode.ErrArmorText)
	}
	return buf, nil
''', '''	const (
		before = iota
		inside
		behind
	)
	state := before
	scn := bufio.NewScanner(r)
	for scn.Scan() {
		line := scn.Bytes()
		if state == before && isBegin(line) {
			state = inside
		}
		if state != inside {
			continue
		}
		buf.Write(line)
		buf.WriteByte('\\n')
		if bytes.HasPrefix(line, []byte(armorBounderyTerminate)) {
			state = behind
		}
	}
	if err := scn.Err(); err != nil {
		return nil, errs.Wrap(err)
	}
	if state == behind {
		return buf, nil
	}
	return nil, errs.Wrap(ecode.ErrArmorText)
}

func isBegin(line []byte) bool {
	return bytes.HasPrefix(line, []byte(armorBoundery)) && !bytes.HasPrefix(line, []byte(armorBounderyExcept))
'''),
("armtext/armtext.go", '''	"fmt"
	"io"
	"strings"
''', '''	"io"
'''),
]),
]
