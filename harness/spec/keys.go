package spec

import "fmt"

// mpi reads one multi-precision integer.
func mpi(c *Cur) (bits uint16, data []byte, ok bool) {
	l, ok := c.Take(2)
	if !ok {
		return 0, nil, false
	}
	bits = be16(l)
	data, ok = c.Take((int64(bits) + 7) / 8)
	return bits, data, ok
}
func mpiNode(bits uint16, data []byte, name string, x *Ctx) *Node {
	return &Node{Name: name, Note: fmt.Sprintf("%d bits", bits), Dump: Dump(data, x.Integer), Kind: "mpi"}
}

// mpis reads one integer for each name.
func mpis(n *Node, c *Cur, x *Ctx, names ...string) bool {
	for _, nm := range names {
		b, d, ok := mpi(c)
		if !ok {
			return false
		}
		n.Add(mpiNode(b, d, nm, x))
	}
	return true
}

func pointName(alg string, d []byte) string {
	form := unknown
	if len(d) > 0 {
		switch d[0] {
		case 0x04:
			form = "uncompressed format"
		case 0x40:
			form = "Native point format of the curve follows"
		case 0x41:
			form = "Only X coordinate follows"
		case 0x42:
			form = "Only Y coordinate follows"
		}
	}
	return alg + " EC point (" + form + ")"
}

// point reads an EC point.
func point(n *Node, c *Cur, x *Ctx, alg string) bool {
	b, d, ok := mpi(c)
	if !ok {
		return false
	}
	n.Add(mpiNode(b, d, pointName(alg, d), x))
	return true
}

// oid reads a curve identifier.
func oid(n *Node, c *Cur, x *Ctx) bool {
	l, ok := c.Byte()
	if !ok {
		return false
	}
	o, ok := c.Take(int64(l))
	if !ok {
		return false
	}
	n.Add(&Node{Name: "ECC Curve OID", Value: CurveName(o), Dump: Dump(o, true), Kind: "code"})
	return true
}

// octets reads a field with a one-octet length; the field may be absent.
func octets(c *Cur) ([]byte, bool) {
	l, ok := c.Byte()
	if !ok {
		return nil, true
	}
	return c.Take(int64(l))
}

const (
	rsa = iota + 1
	dsa
	elg
	ecdh
	ecdsa
	eddsa
)

func family(pub byte) int {
	switch pub {
	case 1, 2, 3:
		return rsa
	case 17:
		return dsa
	case 16, 20:
		return elg
	case 18:
		return ecdh
	case 19:
		return ecdsa
	case 22:
		return eddsa
	}
	return 0
}

func opaque(n *Node, c *Cur, x *Ctx, name string) {
	r := Raw(c.Left(), name, x.Debug)
	r.Kind = "rest"
	n.Add(r)
}

// PubMaterial is the public key material.
func PubMaterial(n *Node, c *Cur, x *Ctx, pub byte) bool {
	switch family(pub) {
	case rsa:
		return mpis(n, c, x, "RSA public modulus n", "RSA public encryption exponent e")
	case dsa:
		return mpis(n, c, x, "DSA p", "DSA q (q is a prime divisor of p-1)", "DSA g", "DSA y (= g^x mod p where x is secret)")
	case elg:
		return mpis(n, c, x, "ElGamal prime p", "ElGamal group generator g", "ElGamal public key value y (= g^x mod p where x is secret)")
	case ecdh:
		if !oid(n, c, x) || !point(n, c, x, "ECDH") {
			return false
		}
		p, ok := octets(c)
		if !ok {
			return false
		}
		k := &Node{Name: "KDF parameters", Note: bytesNote(int64(len(p))), Dump: Dump(p, x.Integer), Kind: "mpi"}
		if len(p) > 2 && p[0] == 1 {
			k.Add(hashItem(p[1], x))
			k.Add(symItem(p[2], x))
		} else {
			k.Value = unknown
		}
		n.Add(k)
		return true
	case ecdsa:
		return oid(n, c, x) && point(n, c, x, "ECDSA")
	case eddsa:
		return oid(n, c, x) && point(n, c, x, "EdDSA")
	}
	opaque(n, c, x, fmt.Sprintf("Multi-precision integers of Unknown (pub %d)", pub))
	return true
}

// SigMaterial is the signature value.
func SigMaterial(n *Node, c *Cur, x *Ctx, pub byte) bool {
	switch family(pub) {
	case rsa:
		return mpis(n, c, x, "RSA signature value m^d mod n")
	case dsa:
		return mpis(n, c, x, "DSA value r", "DSA value s")
	case elg:
		return mpis(n, c, x, "ElGamal a = g^k mod p", "ElGamal b = (h - a*x)/k mod p - 1")
	case ecdh:
		opaque(n, c, x, "Multi-precision integers of ECDH")
		return true
	case ecdsa:
		return mpis(n, c, x, "ECDSA value r", "ECDSA value s")
	case eddsa:
		return mpis(n, c, x, "EC point r", "EdDSA value s in the little endian representation")
	}
	opaque(n, c, x, fmt.Sprintf("Multi-precision integers of Unknown (pub %d)", pub))
	return true
}

// SesMaterial is the encrypted session key.
func SesMaterial(n *Node, c *Cur, x *Ctx, pub byte) bool {
	const tail = "m = sym alg(1 byte) + checksum(2 bytes) + PKCS#1 block encoding EME-PKCS1-v1_5"
	switch family(pub) {
	case rsa:
		return mpis(n, c, x, "RSA m^e mod n; "+tail)
	case elg:
		return mpis(n, c, x, "ElGamal g^k mod p", "ElGamal m * y^k mod p; "+tail)
	case ecdh:
		if !point(n, c, x, "ECDH") {
			return false
		}
		k, ok := octets(c)
		if !ok {
			return false
		}
		n.Add(&Node{Name: "symmetric key (encoded)", Note: bytesNote(int64(len(k))), Dump: Dump(k, x.Integer), Kind: "mpi"})
		return true
	case dsa:
		opaque(n, c, x, "Multi-precision integers of DSA")
	case ecdsa:
		opaque(n, c, x, "Multi-precision integers of ECDSA")
	case eddsa:
		opaque(n, c, x, "Multi-precision integers of EdDSA")
	default:
		opaque(n, c, x, fmt.Sprintf("Multi-precision integers of Unknown (pub %d)", pub))
	}
	return true
}

// SecPlain is unencrypted secret key material, with or without the checksum
// behind it.
func SecPlain(n *Node, c *Cur, x *Ctx, pub byte, sum int64) bool {
	switch family(pub) {
	case rsa:
		return mpis(n, c, x, "RSA secret exponent d", "RSA secret prime value p", "RSA secret prime value q (p < q)", "RSA u, the multiplicative inverse of p, mod q")
	case dsa:
		return mpis(n, c, x, "DSA secret exponent x")
	case elg:
		return mpis(n, c, x, "ElGamal secret exponent x")
	case ecdh:
		return mpis(n, c, x, "ECDH secret key")
	case ecdsa:
		return mpis(n, c, x, "ECDSA secret key")
	case eddsa:
		return mpis(n, c, x, "EdDSA secret key")
	}
	b, ok := c.Take(c.Rest() - sum)
	if !ok {
		return false
	}
	r := Raw(b, fmt.Sprintf("Multi-precision integers of unknown secret key (pub %d)", pub), x.Debug)
	r.Kind = "rest"
	n.Add(r)
	return true
}

// SecEnc is encrypted secret key material: everything that is left.
func SecEnc(n *Node, c *Cur, x *Ctx, pub byte) {
	name := fmt.Sprintf("Multi-precision integers of unknown encrypted key (pub %d)", pub)
	switch family(pub) {
	case rsa:
		name = "RSA encrypted key (d, p, q, u)"
	case dsa:
		name = "DSA encrypted key"
	case elg:
		name = "Elgamal encrypted key"
	case ecdh:
		name = "ECDH encrypted key"
	case ecdsa:
		name = "ECDSA encrypted key"
	case eddsa:
		name = "EdDSA encrypted key"
	}
	opaque(n, c, x, name)
	c.Off = int64(len(c.B))
}

// S2K is a string-to-key specifier. It tells whether an IV follows.
func S2K(n *Node, c *Cur, x *Ctx) (iv, ok bool) {
	id, ok := c.Byte()
	if !ok {
		return false, false
	}
	s := code("String-to-Key (S2K) Algorithm", S2KName(id), id, x)
	n.Add(s)
	switch id {
	case 0, 1, 3:
		h, ok := c.Byte()
		if !ok {
			return false, false
		}
		s.Add(hashItem(h, x))
		if id == 0 {
			return true, true
		}
		salt, ok := c.Take(8)
		if !ok {
			return false, false
		}
		s.Add(&Node{Name: "Salt", Dump: Dump(salt, true)})
		if id == 1 {
			return true, true
		}
		k, ok := c.Byte()
		if !ok {
			return false, false
		}
		count := (16 + uint32(k&15)) << (uint32(k>>4) + 6)
		s.Add(&Node{Name: "Count", Value: fmt.Sprintf("%d", count), Dump: dump1(k, true)})
		return true, true
	case 101: // GnuPG extension
		if c.Rest() < 4 {
			return true, true
		}
		l := c.Left()
		if l[0] != 'G' || l[1] != 'N' || l[2] != 'U' {
			return true, true
		}
		c.Off += 4
		g := &Node{Name: "GNU-divert-to-card", Value: fmt.Sprintf("Extension Number %d", 1000+int(l[3]))}
		if l[3] == 2 {
			k, ok := c.Byte()
			if !ok {
				return false, false
			}
			ser, ok := c.Take(int64(k))
			if !ok {
				return false, false
			}
			g.Add(&Node{Name: "Serial Number", Dump: Dump(ser, true)})
		}
		s.Add(g)
		return false, true
	}
	return true, true
}

// PubKey is the body of a public key after the version octet.
func PubKey(n *Node, c *Cur, x *Ctx, ver byte) (pub byte, ok bool) {
	x.Key = 0
	if ver < 3 || ver > 5 {
		return 0, true
	}
	tm, ok := c.Take(4)
	if !ok {
		return 0, false
	}
	x.Key = be32(tm)
	n.Add(Date(tm, "Public key creation time", x))
	if ver == 3 {
		d, ok := c.Take(2)
		if !ok {
			return 0, false
		}
		n.Add(&Node{Name: "Valid days", Value: fmt.Sprintf("%d", be16(d)), Note: "0 is forever"})
	}
	pub, ok = c.Byte()
	if !ok {
		return 0, false
	}
	n.Add(pubItem(pub, x))
	if ver == 5 {
		l, ok := c.Take(4)
		if !ok {
			return 0, false
		}
		b, ok := c.Take(int64(be32(l)))
		if !ok {
			return 0, false
		}
		k := New(b)
		if !PubMaterial(n, k, x, pub) {
			return pub, false
		}
		trail(n, k, x)
		return pub, true
	}
	return pub, PubMaterial(n, c, x, pub)
}

// SecKey is the secret part of a secret key packet.
func SecKey(n *Node, c *Cur, x *Ctx, ver, pub byte) bool {
	usage, ok := c.Byte()
	if !ok {
		return false
	}
	// optional fields (in their own area in version 5)
	o := c
	if ver == 5 {
		l, ok := c.Byte()
		if !ok {
			return false
		}
		b, ok := c.Take(int64(l))
		if !ok {
			return false
		}
		o = New(b)
	}
	if usage != 0 {
		sym := usage
		if usage >= 253 {
			if sym, ok = o.Byte(); !ok {
				return false
			}
		}
		n.Add(symItem(sym, x))
		if usage == 253 {
			a, ok := o.Byte()
			if !ok {
				return false
			}
			n.Add(aeadItem(a, x))
		}
		iv := true
		if usage >= 253 {
			iv, ok = S2K(n, o, x)
			if !ok {
				return false
			}
		}
		if iv {
			v, ok := o.Take(SymBlock(sym))
			if !ok {
				return false
			}
			name := "IV"
			if usage == 253 {
				name = "nonce for the AEAD"
			}
			n.Add(&Node{Name: name, Dump: Dump(v, true)})
		}
	}
	if ver == 5 {
		trail(n, o, x)
	}
	// key material
	k := c
	if ver == 5 {
		l, ok := c.Take(4)
		if !ok {
			return false
		}
		b, ok := c.Take(int64(be32(l)))
		if !ok {
			return false
		}
		k = New(b)
	}
	switch usage {
	case 0:
		n.Note = "s2k usage 0; plain secret-key material"
		sum := int64(2)
		if ver == 5 {
			sum = 0
		}
		if !SecPlain(n, k, x, pub, sum) {
			return false
		}
		s, ok := c.Take(2)
		if !ok {
			return false
		}
		n.Add(&Node{Name: "2-octet checksum", Dump: Dump(s, true)})
	case 253:
		n.Note = "s2k usage 253; encrypted secret-key material and AEAD authentication tag"
		SecEnc(n, k, x, pub)
	case 254:
		n.Note = "s2k usage 254; encrypted secret-key material and 20-octet SHA-1 hash"
		SecEnc(n, k, x, pub)
	default:
		n.Note = fmt.Sprintf("s2k usage %d; encrypted secret-key material and 2-octet checksum", usage)
		SecEnc(n, k, x, pub)
	}
	if ver == 5 {
		trail(n, k, x)
	}
	return true
}
