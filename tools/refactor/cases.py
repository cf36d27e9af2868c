"""Edits that keep the behaviour: (name, obligations to run, [(file, old, new)...])."""
CASES = [
("reader", "O_Reader.*|O_Dump.*|O_Tag1[0-3]|O_Sub20|O_Tag01", [
 ("parse/reader/reader.go", '''	if size < 0 || size > rl-r.offset {
		return nil, errs.Wrap(io.ErrUnexpectedEOF, errs.WithContext("size", size))
	}
	b := r.buffer[r.offset : r.offset+size]
	r.offset += size
	return b, nil
''', '''	rest := r.Rest()
	if rest < size || size < 0 {
		return nil, errs.Wrap(io.ErrUnexpectedEOF, errs.WithContext("size", size))
	}
	start := r.offset
	end := start + size
	r.offset = end
	return r.buffer[start:end], nil
'''),
 ("parse/reader/reader.go", '''	b := r.buffer[r.offset:]
	r.offset = rl
	return b, nil
''', '''	return r.ReadBytes(rl - r.offset)
'''),
]),
("dump-builder", "O_Dump.*|O_Reader.*|O_Tag1[0-3]|O_Sub20", [
 ("parse/reader/reader.go", '''	sep := ""
	var buf = make([]byte, 0, 16)
	for _, b := range data {
		//buf = append(buf, fmt.Sprintf("%s%#02x,", sep, b)...)
		buf = append(buf, fmt.Sprintf("%s%02x", sep, b)...)
		sep = " "
	}
	return string(buf)
''', '''	buf := &bytes.Buffer{}
	for i := 0; i < len(data); i++ {
		if i > 0 {
			buf.WriteByte(' ')
		}
		fmt.Fprintf(buf, "%02x", data[i])
	}
	return buf.String()
'''),
]),
("dump-verb", "O_Dump.*|O_Reader.*|O_Tag1[0-3]|O_Sub20", [
 ("parse/reader/reader.go", '''	sep := ""
	var buf = make([]byte, 0, 16)
	for _, b := range data {
		//buf = append(buf, fmt.Sprintf("%s%#02x,", sep, b)...)
		buf = append(buf, fmt.Sprintf("%s%02x", sep, b)...)
		sep = " "
	}
	return string(buf)
''', '''	return fmt.Sprintf("% x", data)
'''),
]),
("dump-join", "O_Dump.*|O_Reader.*|O_Tag1[0-3]|O_Sub20", [
 ("parse/reader/reader.go", '''	sep := ""
	var buf = make([]byte, 0, 16)
	for _, b := range data {
		//buf = append(buf, fmt.Sprintf("%s%#02x,", sep, b)...)
		buf = append(buf, fmt.Sprintf("%s%02x", sep, b)...)
		sep = " "
	}
	return string(buf)
''', '''	octets := make([]string, len(data))
	for i, b := range data {
		octets[i] = fmt.Sprintf("%02x", b)
	}
	return strings.Join(octets, " ")
'''),
 ("parse/reader/reader.go", '''	"io"
''', '''	"io"
	"strings"
'''),
]),
("dump-hex", "O_Dump.*|O_Reader.*|O_Tag1[0-3]|O_Sub20", [
 ("parse/reader/reader.go", '''	sep := ""
	var buf = make([]byte, 0, 16)
	for _, b := range data {
		//buf = append(buf, fmt.Sprintf("%s%#02x,", sep, b)...)
		buf = append(buf, fmt.Sprintf("%s%02x", sep, b)...)
		sep = " "
	}
	return string(buf)
''', '''	const digits = "0123456789abcdef"
	buf := make([]byte, 0, len(data)*3)
	for i, b := range data {
		if i > 0 {
			buf = append(buf, ' ')
		}
		buf = append(buf, digits[b>>4], digits[b&0x0f])
	}
	return string(buf)
'''),
 ("parse/reader/reader.go", '''	"fmt"
''', ''''''),
]),
("signature-areas", "O_Tag02", [
 ("parse/tags/tag02.go", '''	if sizeHS > 0 {
		sp, err := t.reader.ReadBytes(int64(sizeHS))
		if err != nil {
			return rootInfo, errs.New(fmt.Sprintf("illegal hashed subpacket (size: %d bytes)", int64(sizeHS)), errs.WithCause(err))
		}
		subpcket, err := newSubparser(t.cxt, t.tag, "Hashed Subpacket", sp)
		if err != nil {
			return rootInfo, errs.New("illegal subpacket", errs.WithCause(err))
		}
		itm, err := subpcket.Parse()
		if err != nil {
			return rootInfo, errs.Wrap(err)
		}
		rootInfo.Add(itm)
	}
''', '''	if err := t.parseArea(rootInfo, "Hashed Subpacket", sizeHS); err != nil {
		return rootInfo, err
	}
'''),
 ("parse/tags/tag02.go", '''	if sizeUS > 0 {
		sp, err := t.reader.ReadBytes(int64(sizeUS))
		if err != nil {
			return rootInfo, errs.New(fmt.Sprintf("illegal unhashed subpacket (size: %d bytes)", int64(sizeUS)), errs.WithCause(err))
		}
		subpcket, err := newSubparser(t.cxt, t.tag, "Unhashed Subpacket", sp)
		if err != nil {
			return rootInfo, errs.New("illegal subpacket", errs.WithCause(err))
		}
		itm, err := subpcket.Parse()
		if err != nil {
			return rootInfo, errs.Wrap(err)
		}
		rootInfo.Add(itm)
	}
''', '''	if err := t.parseArea(rootInfo, "Unhashed Subpacket", sizeUS); err != nil {
		return rootInfo, err
	}
'''),
 ("parse/tags/tag02.go", '''func (t *tag02) parseV5(''', '''func (t *tag02) parseArea(rootInfo *result.Item, name string, size uint16) error {
	if size == 0 {
		return nil
	}
	sp, err := t.reader.ReadBytes(int64(size))
	if err != nil {
		return errs.New(fmt.Sprintf("illegal %s (size: %d bytes)", name, size), errs.WithCause(err))
	}
	parser, err := newSubparser(t.cxt, t.tag, name, sp)
	if err != nil {
		return errs.New("illegal subpacket", errs.WithCause(err))
	}
	itm, err := parser.Parse()
	if err != nil {
		return errs.Wrap(err)
	}
	rootInfo.Add(itm)
	return nil
}

func (t *tag02) parseV5('''),
 ("parse/tags/subParser.go", '''	var lastErr error
	for _, osp := range sp.opaqueSubpacke {
		item, err := NewSubs(sp.cxt, osp, sp.tagID).Parse()
		if err != nil {
			lastErr = err
			break
		}
		sp.item.Add(item)
	}
	return sp.item, lastErr
''', '''	for i := 0; i < len(sp.opaqueSubpacke); i++ {
		item, err := NewSubs(sp.cxt, sp.opaqueSubpacke[i], sp.tagID).Parse()
		if err != nil {
			return sp.item, err
		}
		sp.item.Add(item)
	}
	return sp.item, nil
'''),
]),
("subs-switch", "O_Sub.*", [
 ("parse/tags/subs.go", '''			return newFunctionsSub02.Get(int(st), newSubReserved)(cxt, values.SuboacketID(osp.SubType), osp.Contents)
		}
	} else if tagID == 17 {
		return newFunctionsSub17.Get(int(st), newSubReserved)(cxt, values.SuboacketID(osp.SubType), osp.Contents)
	}
	return nil
''', '''		}
		if f, ok := newFunctionsSub02[int(st)]; ok {
			return f(cxt, values.SuboacketID(osp.SubType), osp.Contents)
		}
		return newSubReserved(cxt, values.SuboacketID(osp.SubType), osp.Contents)
	}
	if tagID != 17 {
		return nil
	}
	create := newSubReserved
	if st == 1 {
		create = newSub01
	}
	return create(cxt, values.SuboacketID(osp.SubType), osp.Contents)
'''),
 ("parse/tags/subs.go", '''	st := osp.SubType & 0x7f
''', '''	st := osp.SubType &^ 0x80
	_ = newFunctionsSub17
'''),
]),
("names", "O_Tag0[134]|O_Sub2[1]|O_Sub31|O_Sub16|O_Tag11|O_Tag20|O_Sub29", [
 ("parse/values/hashid.go", '''	var name string
	if 100 <= ha && ha <= 110 {
		name = PrivateAlgName
	} else {
		name = hashIDNames.Get(int(ha), "Unknown")
	}
	return fmt.Sprintf("%s (hash %d)", name, int(ha))
''', '''	name, ok := hashIDNames[int(ha)]
	switch {
	case ha >= 100 && ha < 111:
		name = PrivateAlgName
	case !ok:
		name = "Unknown"
	}
	return name + " (hash " + strconv.Itoa(int(ha)) + ")"
'''),
 ("parse/values/hashid.go", '''	"fmt"
''', '''	"strconv"
'''),
 ("parse/values/s2kid.go", '''	count := (uint32(16) + (uint32(c) & 0x0f)) << ((uint32(c) >> 4) + S2KEXPBIAS)
''', '''	mantissa := uint32(c&0x0f) + 16
	exponent := uint32(c>>4) + S2KEXPBIAS
	count := mantissa << exponent
'''),
 ("parse/tags/sub29.go", '''	if 100 <= code && code <= 110 {
		name = "(Private Use)"
	} else {
		name = reasonNames.Get(int(code), "Unknown reason")
	}
	rootInfo.Value = fmt.Sprintf("%s (%d)", name, code)

	if s.reader.Rest() > 0 {
		b, _ := s.reader.Read2EOF()
		rootInfo.Add(values.NewText(b, "Additional resultrmation").ToItem(s.cxt.Debug()))
	}
	return rootInfo, nil
''', '''	name = reasonNames.Get(int(code), "Unknown reason")
	if code >= 100 && code <= 110 {
		name = "(Private Use)"
	}
	rootInfo.Value = name + fmt.Sprintf(" (%d)", code)

	if b, err := s.reader.Read2EOF(); err == nil {
		rootInfo.Add(values.NewText(b, "Additional resultrmation").ToItem(s.cxt.Debug()))
	}
	return rootInfo, nil
'''),
]),
("flags-table", "O_Sub27|O_Sub30|O_Sub23", [
 ("parse/tags/sub27.go", '''	rootInfo.Add(values.Flag2Item(flag&0x01, "This key may be used to certify other keys."))
	rootInfo.Add(values.Flag2Item(flag&0x02, "This key may be used to sign data."))
	rootInfo.Add(values.Flag2Item(flag&0x04, "This key may be used to encrypt communications."))
	rootInfo.Add(values.Flag2Item(flag&0x08, "This key may be used to encrypt storage."))
''', '''	for _, f := range []struct {
		mask byte
		name string
	}{
		{0x01, "This key may be used to certify other keys."},
		{0x02, "This key may be used to sign data."},
		{0x04, "This key may be used to encrypt communications."},
		{0x08, "This key may be used to encrypt storage."},
	} {
		rootInfo.Add(values.Flag2Item(flag&f.mask, f.name))
	}
'''),
 ("parse/tags/sub27.go", '''		flags, _ := s.reader.Read2EOF()
		for i, flag := range flags {
			rootInfo.Add(values.Flag2Item(flag, fmt.Sprintf("Unknown flag%d(%#02x)", i+3, flag)))
		}
''', '''		flags, _ := s.reader.Read2EOF()
		n := 3
		for _, flag := range flags {
			if flag != 0 {
				rootInfo.Add(values.Flag2Item(flag, fmt.Sprintf("Unknown flag%d(%#02x)", n, flag)))
			}
			n++
		}
'''),
 ("parse/tags/sub30.go", '''		flags, _ := s.reader.Read2EOF()
		for i, flag := range flags {
			rootInfo.Add(values.Flag2Item(flag, fmt.Sprintf("Unknown flag%d(%#02x)", i+2, flag)))
		}
''', '''		for i := 2; s.reader.Rest() > 0; i++ {
			flag, err := s.reader.ReadByte()
			if err != nil {
				return rootInfo, errs.Wrap(err)
			}
			rootInfo.Add(values.Flag2Item(flag, fmt.Sprintf("Unknown flag%d(%#02x)", i, flag)))
		}
'''),
]),
("seckey", "O_Tag05", [
 ("parse/tags/seckey.go", '''		case 253:
			parent.Note = "s2k usage 253; encrypted secret-key material and AEAD authentication tag"
			if err := pubkey.New(p.cxt, p.pubID, rOpt).ParseSecEnc(parent); err != nil {
				return errs.New(
					"illegal pubkey",
					errs.WithContext("s2k_usage", usage),
					errs.WithCause(err),
				)
			}
		case 254:
			parent.Note = "s2k usage 254; encrypted secret-key material and 20-octet SHA-1 hash"
			if err := pubkey.New(p.cxt, p.pubID, rOpt).ParseSecEnc(parent); err != nil {
				return errs.New(
					"illegal pubkey",
					errs.WithContext("s2k_usage", usage),
					errs.WithCause(err),
				)
			}
		default:
			parent.Note = fmt.Sprintf("s2k usage %d; encrypted secret-key material and 2-octet checksum", usage)
			if err''', '''		default:
			check := "2-octet checksum"
			if usage == 253 {
				check = "AEAD authentication tag"
			} else if usage == 254 {
				check = "20-octet SHA-1 hash"
			}
			parent.Note = fmt.Sprintf("s2k usage %d; encrypted secret-key material and %s", usage, check)
			if err'''),
 ("parse/tags/seckey.go", '''	var name string
	if isAEAD {
		name = "nonce for the AEAD"

	} else {
		name = "IV"
	}
''', '''	name := map[bool]string{true: "nonce for the AEAD", false: "IV"}[isAEAD]
'''),
]),
("text", "O_Tag11|O_Tag13|O_Sub20|O_Sub24|O_Sub28", [
 ("parse/values/literal.go", '''	rs := []rune{}
	for _, r := range string(t.body) {
		if unicode.IsControl(r) {
			c := fmt.Sprintf("(%U)", r)
			rs = append(rs, []rune(c)...)
		} else {
			rs = append(rs, r)
		}
	}
''', '''	var rs strings.Builder
	for _, r := range string(t.body) {
		if !unicode.IsControl(r) {
			rs.WriteRune(r)
			continue
		}
		fmt.Fprintf(&rs, "(%U)", r)
	}
'''),
 ("parse/values/literal.go", "result.Value(string(rs))", "result.Value(rs.String())"),
 ("parse/values/literal.go", '''	"fmt"
''', '''	"fmt"
	"strings"
'''),
]),
("text-decode", "O_Tag11|O_Tag13|O_Sub20|O_Sub24|O_Sub28", [
 ("parse/values/literal.go", '''	rs := []rune{}
	for _, r := range string(t.body) {
		if unicode.IsControl(r) {
			c := fmt.Sprintf("(%U)", r)
			rs = append(rs, []rune(c)...)
		} else {
			rs = append(rs, r)
		}
	}
''', '''	rs := ""
	for b := t.body; len(b) > 0; {
		r, n := utf8.DecodeRune(b)
		rs += escapeControl(r)
		b = b[n:]
	}
'''),
 ("parse/values/literal.go", "result.Value(string(rs))", "result.Value(rs)"),
 ("parse/values/literal.go", '''//RawData returns''', '''func escapeControl(r rune) string {
	if unicode.IsControl(r) {
		return fmt.Sprintf("(%U)", r)
	}
	return string(r)
}

//RawData returns'''),
]),
("stream", "O_Parse|O_ParseNil|O_Entry|O_Sub38", [
 ("parse/tags/packets.go", '''			for {
				if err := sp.Next(); err != nil {
					if !errs.Is(err, io.EOF) { //EOF is not error
						return item, errs.Wrap(err)
					}
					break
				}
				itm, err := sp.tag.Parse()
				if err != nil {
					return item, errs.Wrap(err)
				}
				item.Add(itm)
			}
''', '''			if err := sp.addTo(item); err != nil {
				return item, err
			}
'''),
 ("parse/tags/packets.go", '''func (p *Packets) Parse() (''', '''func (p *Packets) addTo(item *result.Item) error {
	err := p.Next()
	for ; err == nil; err = p.Next() {
		itm, e := p.tag.Parse()
		if e != nil {
			return errs.Wrap(e)
		}
		item.Add(itm)
	}
	if errs.Is(err, io.EOF) {
		return nil
	}
	return errs.Wrap(err)
}

func (p *Packets) Parse() ('''),
 ("parse/parse.go", '''	for {
		if err := p.pct.Next(); err != nil {
			if !errs.Is(err, io.EOF) { //EOF is not error
				return p.info, errs.Wrap(err)
			}
			return p.info, nil
		}
		item, err := p.pct.Parse()
		if err != nil {
			return p.info, errs.Wrap(err)
		}
		p.info.Add(item)
	}
''', '''	for done := false; !done; {
		err := p.pct.Next()
		switch {
		case err == nil:
			item, err := p.pct.Parse()
			if err != nil {
				return p.info, errs.Wrap(err)
			}
			p.info.Add(item)
		case errs.Is(err, io.EOF):
			done = true
		default:
			return p.info, errs.Wrap(err)
		}
	}
	return p.info, nil
'''),
]),
("output", "O_Show.*|O_JSON|O_Add", [
 ("parse/result/result.go", '''	fmt.Fprintf(buf, "%s%s", strings.Repeat(indent, lvl), i.Name)
	if len(i.Value) > 0 {
		fmt.Fprintf(buf, ": %s", i.Value)
	}
	if len(i.Note) > 0 {
		fmt.Fprintf(buf, " (%s)", i.Note)
	}
	buf.WriteString("\\n")
	if len(i.Dump) > 0 {
		fmt.Fprintf(buf, "%s%s\\n", strings.Repeat(indent, lvl+1), i.Dump)
	}
	if len(i.Items) > 0 {
		for _, itm := range i.Items {
			itm.toString(indent, lvl+1, buf)
		}
	}
	return buf
''', '''	line := strings.Repeat(indent, lvl) + i.Name
	if i.Value != "" {
		line += ": " + i.Value
	}
	if i.Note != "" {
		line += " (" + i.Note + ")"
	}
	fmt.Fprintln(buf, line)
	next := lvl + 1
	if i.Dump != "" {
		buf.WriteString(strings.Repeat(indent, next))
		buf.WriteString(i.Dump)
		buf.WriteByte('\\n')
	}
	for k := range i.Items {
		i.Items[k].toString(indent, next, buf)
	}
	return buf
'''),
 ("parse/result/result.go", '''	if indent > 0 {
		b, err := json.MarshalIndent(i, "", strings.Repeat(" ", indent))
		return bytes.NewReader(b), errs.Wrap(err)
	}
	b, err := json.Marshal(i)
	return bytes.NewReader(b), errs.Wrap(err)
''', '''	var b []byte
	var err error
	if indent < 1 {
		b, err = json.Marshal(i)
	} else {
		b, err = json.MarshalIndent(i, "", strings.Repeat(" ", indent))
	}
	return bytes.NewReader(b), errs.Wrap(err)
'''),
]),
("github", "O_GitHub.*", [
 ("github/github.go", '''	for i := 1; ; i++ {
		keys, err := getInPage(ctx, cli, username, i)
		if err != nil {
			return nil, errs.Wrap(err, errs.WithContext("username", username), errs.WithContext("keyID", keyID))
		}
		for _, k := range keys {
			if k != nil && strings.EqualFold(k.KeyID, strings.TrimPrefix(strings.ToLower(keyID), "0x")) {
				if k.RawKey == nil {
					return nil, errs.Wrap(ecode.ErrNoKey, errs.WithContext("username", username), errs.WithContext("keyID", keyID))
				}
				return []byte(*k.RawKey), nil
			}
		}
		if len(keys) < maxKeys {
			break
		}
	}
	return nil, errs.Wrap(ecode.ErrNoKey, errs.WithContext("username", username), errs.WithContext("keyID", keyID))
''', '''	want := strings.TrimPrefix(strings.ToLower(keyID), "0x")
	page, more := 0, true
	for more {
		page++
		keys, err := getInPage(ctx, cli, username, page)
		if err != nil {
			return nil, errs.Wrap(err, errs.WithContext("username", username), errs.WithContext("keyID", keyID))
		}
		if k := find(keys, want); k != nil {
			if k.RawKey != nil {
				return []byte(*k.RawKey), nil
			}
			break
		}
		more = len(keys) >= maxKeys
	}
	return nil, errs.Wrap(ecode.ErrNoKey, errs.WithContext("username", username), errs.WithContext("keyID", keyID))
'''),
 ("github/github.go", '''func getInPage(''', '''func find(keys []*OpenPGPKey, id string) *OpenPGPKey {
	for _, k := range keys {
		if k == nil {
			continue
		}
		if strings.EqualFold(k.KeyID, id) {
			return k
		}
	}
	return nil
}

func getInPage('''),
]),
("hkp", "O_HKP.*", [
 ("hkp/hkp.go", '''	values := url.Values{
		"search": {userID},
		"op":     {"get"},
	}
	u := s.URL()
	u.Path = "/pks/lookup"
	u.RawQuery = values.Encode()
''', '''	values := url.Values{}
	values.Set("op", "get")
	values.Set("search", userID)
	u := s.URL()
	u.RawQuery = values.Encode()
	u.Path = "/pks" + "/lookup"
'''),
 ("hkp/hkp.go", '''	if s, ok := protocolMap[p]; ok {
		return s
	}
	return protocolMap[HKP]
''', '''	switch p {
	case HKPS:
		return "https"
	default:
		return protocolMap[HKP]
	}
'''),
]),
("hkp-escape", "O_HKP.*", [
 ("hkp/hkp.go", '''	values := url.Values{
		"search": {userID},
		"op":     {"get"},
	}
	u := s.URL()
	u.Path = "/pks/lookup"
	u.RawQuery = values.Encode()
''', '''	u := s.URL()
	u.Path = "/pks/lookup"
	u.RawQuery = "op=get&search=" + url.QueryEscape(userID)
'''),
]),
("options", "O_Option.*", [
 ("parse/context/context.go", '''	if f, ok := c.options[code]; ok {
		return f
	}
	return false
''', '''	return c.options[code]
'''),
 ("parse/context/options.go", '''	for k, v := range optcodeMap {
		if strings.ToLower(s) == v {
			return k
		}
	}
	return UNKNOWN
''', '''	name := strings.ToLower(s)
	for code := ARMOR; code <= UTC; code++ {
		if optcodeMap[code] == name {
			return code
		}
	}
	return UNKNOWN
'''),
]),
("armor", "O_ArmText|O_Parse", [
 ("armtext/armtext.go", '''		str := scn.Text()
		if !armorFlag {
			if strings.HasPrefix(str, armorBoundery) && !strings.HasPrefix(str, armorBounderyExcept) {
				armorFlag = true
			}
		}
		if armorFlag && !armorEndFlag {
			fmt.Fprintln(buf, str)
			if strings.HasPrefix(str, armorBounderyTerminate) {
				armorEndFlag = true
			}
		}
''', '''		str := scn.Text()
		armorFlag = armorFlag || isBegin(str)
		if !armorFlag || armorEndFlag {
			continue
		}
		buf.WriteString(str)
		buf.WriteByte('\\n')
		armorEndFlag = strings.HasPrefix(str, armorBounderyTerminate)
'''),
 ("armtext/armtext.go", '''func Get(''', '''func isBegin(s string) bool {
	return strings.HasPrefix(s, armorBoundery) && !strings.HasPrefix(s, armorBounderyExcept)
}

func Get('''),
 ("armtext/armtext.go", '''	"fmt"
''', ''),
]),
("pubkey", "O_Tag06|O_Tag01", [
 ("parse/tags/pubkey.go", '''	tm, err := values.NewDateTime(p.reader, p.cxt.UTC())
	if err != nil {
		return errs.New("illegal Key Creation Time", errs.WithCause(err))
	}
	p.cxt.KeyCreationTime = tm
	parent.Add(values.PubKeyTimeItem(tm, p.cxt.Debug()))
	// [05] one-octet number denoting the public-key algorithm of this key.
	pubid, err := p.reader.ReadByte()
	if err != nil {
		return errs.New("illegal pub ID", errs.WithCause(err))
	}
	p.pubID = values.PubID(pubid)
	parent.Add(p.pubID.ToItem(p.cxt.Debug()))
	// [06] series of values comprising the key material.
''', '''	if err := p.common(parent); err != nil {
		return err
	}
	// [06] series of values comprising the key material.
'''),
 ("parse/tags/pubkey.go", '''//PubID returns pubID
''', '''func (p *pubkeyInfo) common(parent *result.Item) error {
	tm, err := values.NewDateTime(p.reader, p.cxt.UTC())
	if err != nil {
		return errs.New("illegal Key Creation Time", errs.WithCause(err))
	}
	parent.Add(values.PubKeyTimeItem(tm, p.cxt.Debug()))
	p.cxt.KeyCreationTime = tm
	id, err := p.reader.ReadByte()
	if err != nil {
		return errs.New("illegal pub ID", errs.WithCause(err))
	}
	p.pubID = values.PubID(id)
	parent.Add(p.pubID.ToItem(p.cxt.Debug()))
	return nil
}

//PubID returns pubID
'''),
 ("parse/pubkey/parse_pub.go", '''	mpi, err := values.NewMPI(p.reader)
	if err != nil {
		return errs.Wrap(err)
	}
	item.Add(mpi.ToItem("DSA p", p.cxt.Integer()))
	mpi, err = values.NewMPI(p.reader)
	if err != nil {
		return errs.Wrap(err)
	}
	item.Add(mpi.ToItem("DSA q (q is a prime divisor of p-1)", p.cxt.Integer()))
	mpi, err = values.NewMPI(p.reader)
	if err != nil {
		return errs.Wrap(err)
	}
	item.Add(mpi.ToItem("DSA g", p.cxt.Integer()))
	mpi, err = values.NewMPI(p.reader)
	if err != nil {
		return errs.Wrap(err)
	}
	item.Add(mpi.ToItem("DSA y (= g^x mod p where x is secret)", p.cxt.Integer()))
	return nil
''', '''	for _, name := range []string{"DSA p", "DSA q (q is a prime divisor of p-1)", "DSA g", "DSA y (= g^x mod p where x is secret)"} {
		mpi, err := values.NewMPI(p.reader)
		if err != nil {
			return errs.Wrap(err)
		}
		item.Add(mpi.ToItem(name, p.cxt.Integer()))
	}
	return nil
'''),
 ("parse/values/mpi.go", '''	byteLength := (int64(bitLength) + 7) / 8
''', '''	byteLength := int64(bitLength) >> 3
	if bitLength%8 != 0 {
		byteLength++
	}
'''),
]),
("times", "O_Sub0[239]|O_Tag11|O_Tag06", [
 ("parse/values/datetime.go", '''	t := time.Unix(ut, 0)
	if utcFlag {
		t = t.In(time.UTC)
	}
	return t.Format(time.RFC3339)
''', '''	if utcFlag {
		return time.Unix(ut, 0).UTC().Format(time.RFC3339)
	}
	return time.Unix(ut, 0).Format("2006-01-02T15:04:05Z07:00")
'''),
 ("parse/values/expire.go", '''	exp := binary.BigEndian.Uint32(e.day)
	start := e.start.UnixTime()
	var endDay string
	if start > 0 {
		endDay = unixtime2RFC3339(int64(start)+int64(exp), e.start.utcFlag)
	}
''', '''	exp := binary.BigEndian.Uint32(e.day)
	endDay := e.end(exp)
'''),
 ("parse/values/expire.go", '''//SigExpireItem returns''', '''func (e *Expire) end(exp uint32) string {
	if e.start.IsZero() {
		return ""
	}
	sum := uint64(e.start.UnixTime()) + uint64(exp)
	return unixtime2RFC3339(int64(sum), e.start.utcFlag)
}

//SigExpireItem returns'''),
]),
("s2k", "O_Tag03", [
 ("parse/s2k/s2k.go", '''		if s2kID != 0x00 {
			//0x01: Salted S2K
			//0x03: Iterated and Salted S2K
			salt, err''', '''		if s2kID == 0x01 || s2kID == 0x03 {
			salt, err'''),
 ("parse/s2k/s2k.go", '''		if s.reader.Rest() < 4 {
			return nil //unknown
		}
		mrk, err := s.reader.ReadBytes(3)
		if err != nil {
			return errs.New("invalid gnu-div", errs.WithCause(err))
		}
		if bytes.Equal(mrk, []byte("GNU")) {
''', '''		if s.reader.Rest() <= 3 {
			return nil //unknown
		}
		mrk, err := s.reader.ReadBytes(3)
		if err != nil {
			return errs.New("invalid gnu-div", errs.WithCause(err))
		}
		if string(mrk) == "GNU" {
'''),
 ("parse/s2k/s2k.go", '''	"bytes"
''', ''),
]),
("compressed", "O_Tag08|O_Entry", [
 ("parse/tags/Tag08.go", '''		if err != nil && errs.Is(err, ecode.ErrTooLarge) {
			item.Value = strings.Join([]string{"<", err.Error(), ">"}, "")
			err = nil
		}
		rootInfo.Add(item)
		return rootInfo, errs.Wrap(err)
''', '''		rootInfo.Add(item)
		if err == nil {
			return rootInfo, nil
		}
		if !errs.Is(err, ecode.ErrTooLarge) {
			return rootInfo, errs.Wrap(err)
		}
		item.Value = "<" + err.Error() + ">"
'''),
 ("parse/tags/Tag08.go", '''	"strings"
''', ''),
]),
("image", "O_Sub01|O_Tag11", [
 ("parse/tags/sub01.go", '''		if enc == 0x01 {
			itm.Value = "JPEG"
		} else {
			itm.Value = values.Unknown
		}
		rootInfo.Add(itm)
''', '''		itm.Value = values.Unknown
		if enc == 0x01 {
			itm.Value = "JPEG"
		}
		rootInfo.Add(itm)
'''),
 ("parse/tags/tag11.go", '''	rootInfo.Add(fname.ToItem(t.cxt.Literal()))
	ftime''', '''	dump := t.cxt.Literal()
	rootInfo.Add(fname.ToItem(dump))
	ftime'''),
]),
("cli-show", "O_Command.*", [  # one helper parses, marshals and writes, for all four commands
 ("facade/facade.go", '''			p, err := parse.New(cxt, r)
			if err != nil {
				return debugPrint(ui, err)
			}
			res, err := p.Parse()
			if err != nil {
				return debugPrint(ui, err)
			}
			r, err = marshalPacketInfo(res)
			if err != nil {
				return debugPrint(ui, err)
			}
			return debugPrint(ui, errs.Wrap(ui.WriteFrom(r)))
''', '''			return debugPrint(ui, showPackets(ui, cxt, r))
'''),
 ("facade/facade.go", '''func marshalPacketInfo(''', '''func showPackets(ui *rwi.RWI, cxt *context.Context, r io.Reader) error {
	p, err := parse.New(cxt, r)
	if err != nil {
		return err
	}
	res, err := p.Parse()
	if err != nil {
		return err
	}
	out, err := marshalPacketInfo(res)
	if err != nil {
		return err
	}
	return ui.WriteFrom(out)
}

func marshalPacketInfo('''),
 ("facade/hkp.go", '''			p, err := parse.New(cxt, resp)
			if err != nil {
				return debugPrint(ui, err)
			}
			res, err := p.Parse()
			if err != nil {
				return debugPrint(ui, err)
			}
			r, err := marshalPacketInfo(res)
			if err != nil {
				return debugPrint(ui, err)
			}
			return debugPrint(ui, ui.WriteFrom(r))
''', '''			return debugPrint(ui, showPackets(ui, cxt, resp))
'''),
 ("facade/hkp.go", '''	"github.com/spiegel-im-spiegel/gpgpdump/parse"
''', ""),
 ("facade/github.go", '''			p, err := parse.NewBytes(cxt, resp)
			if err != nil {
				return debugPrint(ui, err)
			}
			res, err := p.Parse()
			if err != nil {
				return debugPrint(ui, err)
			}
			r, err := marshalPacketInfo(res)
			if err != nil {
				return debugPrint(ui, err)
			}
			return debugPrint(ui, ui.WriteFrom(r))
''', '''			return debugPrint(ui, showPackets(ui, cxt, bytes.NewReader(resp)))
'''),
 ("facade/github.go", '''	"github.com/spiegel-im-spiegel/gpgpdump/parse"
''', ""),
 ("facade/fetch.go", '''			p, err := parse.New(cxt, resp.Body())
			if err != nil {
				return debugPrint(ui, err)
			}
			res, err := p.Parse()
			if err != nil {
				return debugPrint(ui, err)
			}
			r, err := marshalPacketInfo(res)
			if err != nil {
				return debugPrint(ui, err)
			}
			return debugPrint(ui, ui.WriteFrom(r))
''', '''			return debugPrint(ui, showPackets(ui, cxt, resp.Body()))
'''),
 ("facade/fetch.go", '''	"github.com/spiegel-im-spiegel/gpgpdump/parse"
''', ""),
]),
("cli-input", "O_Command.*", [  # the choice of the input in a function with if statements
 ("facade/facade.go", '''			var r io.Reader
			switch {
			case cbFlag:
				cb, err := clipboard.NewReader()
				if err != nil {
					return debugPrint(ui, errs.Wrap(err))
				}
				r = cb
				cxt.Set(context.ARMOR, true) //ASCII armor text only
			case len(filePath) > 0:
				file, err := os.Open(filePath)
				if err != nil {
					return debugPrint(ui, errs.Wrap(err))
				}
				defer file.Close()
				r = file
			default:
				r = ui.Reader()
			}
''', '''			r, closer, err := openInput(ui, cxt)
			if err != nil {
				return debugPrint(ui, err)
			}
			if closer != nil {
				defer closer.Close()
			}
'''),
 ("facade/facade.go", '''func marshalPacketInfo(''', '''func openInput(ui *rwi.RWI, cxt *context.Context) (io.Reader, io.Closer, error) {
	if cbFlag {
		cb, err := clipboard.NewReader()
		if err != nil {
			return nil, nil, errs.Wrap(err)
		}
		cxt.Set(context.ARMOR, true)
		return cb, nil, nil
	}
	if filePath == "" {
		return ui.Reader(), nil, nil
	}
	file, err := os.Open(filePath)
	if err != nil {
		return nil, nil, errs.Wrap(err)
	}
	return file, file, nil
}

func marshalPacketInfo('''),
]),
("cli-options", "O_Command.*", [  # options read in a loop; indent computed first
 ("facade/facade.go", '''	cxt := context.New(
		context.Set(getBool(cmd, context.ARMOR)),
		context.Set(getBool(cmd, context.CERT)),
		context.Set(getBool(cmd, context.DEBUG)), //for debug
		//context.Set(getBool(cmd, context.GDUMP)), //not use
		context.Set(getBool(cmd, context.INTEGER)),
		context.Set(getBool(cmd, context.LITERAL)),
		context.Set(getBool(cmd, context.MARKER)),
		context.Set(getBool(cmd, context.PRIVATE)),
		context.Set(getBool(cmd, context.UTC)),
	)
''', '''	cxt := context.New()
	for _, code := range []context.OptCode{
		context.ARMOR, context.CERT, context.DEBUG, context.INTEGER,
		context.LITERAL, context.MARKER, context.PRIVATE, context.UTC,
	} {
		cxt.Set(getBool(cmd, code))
	}
'''),
 ("facade/facade.go", '''	if indentSize > 0 {
		return i.ToString(strings.Repeat(" ", indentSize)), nil
	}
	return i.ToString("\\t"), nil
''', '''	indent := "\\t"
	if indentSize > 0 {
		indent = strings.Repeat(" ", indentSize)
	}
	return i.ToString(indent), nil
'''),
 ("facade/facade.go", '''	exit = exitcode.Normal
	if err := newRootCmd(ui, args).Execute(); err != nil {
		exit = exitcode.Abnormal
	}
	return
''', '''	cmd := newRootCmd(ui, args)
	if err := cmd.Execute(); err != nil {
		return exitcode.Abnormal
	}
	return exitcode.Normal
'''),
]),
("cli-hkp", "O_CommandHKP", [  # the flags bound to variables, the server built in steps
 ("facade/hkp.go", '''			prt := hkp.HKP
			if secFlag {
				prt = hkp.HKPS
			}
			resp, err := hkp.New(
				sks,
				hkp.WithProtocol(prt),
				hkp.WithPort(port),
			).Fetch(
''', '''			opts := []hkp.ServerOptFunc{hkp.WithPort(port)}
			if secFlag {
				opts = append(opts, hkp.WithProtocol(hkp.HKPS))
			} else {
				opts = append(opts, hkp.WithProtocol(hkp.HKP))
			}
			server := hkp.New(sks, opts...)
			resp, err := server.Fetch(
'''),
 ("facade/hkp.go", '''			sks, err := cmd.Flags().GetString("keyserver")
			if err != nil {
				return debugPrint(ui, errs.New("error in --keyserver option", errs.WithCause(err)))
			}
			if len(sks) == 0 {
''', '''			var err error
			if sks == "" {
'''),
 ("facade/hkp.go", '''	hkpCmd := &cobra.Command{
''', '''	var sks string
	hkpCmd := &cobra.Command{
'''),
 ("facade/hkp.go", '''			port, err := cmd.Flags().GetInt("port")
''', '''			flags := cmd.Flags()
			port, err := flags.GetInt("port")
'''),
 ("facade/hkp.go", '''	hkpCmd.Flags().StringP("keyserver", "", "keys.gnupg.net", "OpenPGP key server")
''', '''	hkpCmd.Flags().StringVarP(&sks, "keyserver", "", "keys.gnupg.net", "OpenPGP key server")
'''),
]),
("cli-usage", "O_Command.*", [  # NoArgs-free edits: usage texts, constructor helpers, defer order, debug helper
 ("facade/debug.go", '''	if debugFlag && err != nil {
		fmt.Fprintf(ui.Writer(), "%+v\\n", err)
		return nil
	}
	return err
''', '''	if err == nil || !debugFlag {
		return err
	}
	w := ui.Writer()
	fmt.Fprintf(w, "%+v\\n", err)
	return nil
'''),
 ("facade/fetch.go", '''			if len(args) != 1 {
				return debugPrint(ui, errs.Wrap(os.ErrInvalid, errs.WithContext("args", args)))
			}
			u, err := fetch.URL(args[0])
''', '''			arg, err := singleArg(args)
			if err != nil {
				return debugPrint(ui, err)
			}
			u, err := fetch.URL(arg)
'''),
 ("facade/github.go", '''			if len(args) != 1 {
				return debugPrint(ui, errs.Wrap(os.ErrInvalid, errs.WithContext("args", args)))
			}
			userID := args[0]
''', '''			userID, err := singleArg(args)
			if err != nil {
				return debugPrint(ui, err)
			}
'''),
 ("facade/fetch.go", '''//newHkpCmd returns''', '''func singleArg(args []string) (string, error) {
	switch len(args) {
	case 1:
		return args[0], nil
	default:
		return "", errs.Wrap(os.ErrInvalid, errs.WithContext("args", args))
	}
}

//newHkpCmd returns'''),
 ("facade/version.go", '''	versionCmd := &cobra.Command{
''', '''	run := func(cmd *cobra.Command, args []string) error {
		return ui.OutputErrln(getVersion())
	}
	versionCmd := &cobra.Command{
'''),
 ("facade/version.go", '''		RunE: func(cmd *cobra.Command, args []string) error {
			return ui.OutputErrln(getVersion())
		},
''', '''		RunE:    run,
'''),
]),
]
