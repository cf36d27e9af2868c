package spec

import "fmt"

const unknown = "Unknown"
const private = "Private/Experimental algorithm"

// Code-point registries.

func PubName(id byte) string {
	name := unknown
	switch id {
	case 1:
		name = "RSA (Encrypt or Sign)"
	case 2:
		name = "RSA Encrypt-Only"
	case 3:
		name = "RSA Sign-Only"
	case 16:
		name = "Elgamal (Encrypt-Only)"
	case 17:
		name = "DSA (Digital Signature Algorithm)"
	case 18:
		name = "ECDH public key algorithm"
	case 19:
		name = "ECDSA public key algorithm"
	case 20:
		name = "Reserved (formerly Elgamal Encrypt or Sign)"
	case 21:
		name = "Reserved for Diffie-Hellman"
	case 22:
		name = "EdDSA"
	case 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110:
		name = private
	}
	return fmt.Sprintf("%s (pub %d)", name, id)
}

func SymName(id byte) string {
	name := unknown
	switch id {
	case 0:
		name = "Plaintext or unencrypted data"
	case 1:
		name = "IDEA"
	case 2:
		name = "TripleDES (168 bit key derived from 192)"
	case 3:
		name = "CAST5 (128 bit key, as per)"
	case 4:
		name = "Blowfish (128 bit key, 16 rounds)"
	case 5, 6:
		name = "Reserved"
	case 7:
		name = "AES with 128-bit key"
	case 8:
		name = "AES with 192-bit key"
	case 9:
		name = "AES with 256-bit key"
	case 10:
		name = "Twofish with 256-bit key"
	case 11:
		name = "Camellia with 128-bit key"
	case 12:
		name = "Camellia with 192-bit key"
	case 13:
		name = "Camellia with 256-bit key"
	case 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110:
		name = private
	}
	return fmt.Sprintf("%s (sym %d)", name, id)
}

// SymBlock is the block (IV) size of a cipher.
func SymBlock(id byte) int64 {
	switch {
	case id <= 6:
		return 8
	case id <= 13:
		return 16
	}
	return 0
}

func HashName(id byte) string {
	name := unknown
	switch id {
	case 1:
		name = "MD5"
	case 2:
		name = "SHA-1"
	case 3:
		name = "RIPE-MD/160"
	case 4, 5, 6, 7, 13:
		name = "Reserved"
	case 8:
		name = "SHA2-256"
	case 9:
		name = "SHA2-384"
	case 10:
		name = "SHA2-512"
	case 11:
		name = "SHA2-224"
	case 12:
		name = "SHA3-256"
	case 14:
		name = "SHA3-512"
	case 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110:
		name = private
	}
	return fmt.Sprintf("%s (hash %d)", name, id)
}

func CompName(id byte) string {
	name := unknown
	switch id {
	case 0:
		name = "Uncompressed"
	case 1:
		name = "ZIP <RFC1951>"
	case 2:
		name = "ZLIB <RFC1950>"
	case 3:
		name = "BZip2"
	}
	return fmt.Sprintf("%s (comp %d)", name, id)
}

func AEADName(id byte) string {
	name := unknown
	switch id {
	case 1:
		name = "EAX mode"
	case 2:
		name = "OCB mode <RFC7253>"
	case 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110:
		name = private
	}
	return fmt.Sprintf("%s (aead %d)", name, id)
}

// AEADNonce is the displayed nonce length of an AEAD mode.
func AEADNonce(id byte) int64 {
	if id == 1 || id == 2 {
		return 16
	}
	return 0
}

func S2KName(id byte) string {
	name := unknown
	switch id {
	case 0:
		name = "Simple S2K"
	case 1:
		name = "Salted S2K"
	case 2:
		name = "Reserved"
	case 3:
		name = "Iterated and Salted S2K"
	case 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110:
		name = private
	}
	return fmt.Sprintf("%s (s2k %d)", name, id)
}

func SigName(id byte) string {
	name := unknown
	switch id {
	case 0x00:
		name = "Signature of a binary document"
	case 0x01:
		name = "Signature of a canonical text document"
	case 0x02:
		name = "Standalone signature"
	case 0x10:
		name = "Generic certification of a User ID and Public-Key packet"
	case 0x11:
		name = "Persona certification of a User ID and Public-Key packet"
	case 0x12:
		name = "Casual certification of a User ID and Public-Key packet"
	case 0x13:
		name = "Positive certification of a User ID and Public-Key packet"
	case 0x16:
		name = "Attested Key Signature"
	case 0x18:
		name = "Subkey Binding Signature"
	case 0x19:
		name = "Primary Key Binding Signature"
	case 0x1f:
		name = "Signature directly on a key"
	case 0x20:
		name = "Key revocation signature"
	case 0x28:
		name = "Subkey revocation signature"
	case 0x30:
		name = "Certification revocation signature"
	case 0x40:
		name = "Timestamp signature"
	case 0x50:
		name = "Third-Party Confirmation signature"
	}
	return fmt.Sprintf("%s (%#02x)", name, id)
}

func TagName(id int) string {
	name := unknown
	switch id {
	case 0:
		name = "Reserved"
	case 1:
		name = "Public-Key Encrypted Session Key Packet"
	case 2:
		name = "Signature Packet"
	case 3:
		name = "Symmetric-Key Encrypted Session Key Packet"
	case 4:
		name = "One-Pass Signature Packet"
	case 5:
		name = "Secret-Key Packet"
	case 6:
		name = "Public-Key Packet"
	case 7:
		name = "Secret-Subkey Packet"
	case 8:
		name = "Compressed Data Packet"
	case 9:
		name = "Symmetrically Encrypted Data Packet"
	case 10:
		name = "Marker Packet (Obsolete Literal Packet)"
	case 11:
		name = "Literal Data Packet"
	case 12:
		name = "Trust Packet"
	case 13:
		name = "User ID Packet"
	case 14:
		name = "Public-Subkey Packet"
	case 17:
		name = "User Attribute Packet"
	case 18:
		name = "Sym. Encrypted Integrity Protected Data Packet"
	case 19:
		name = "Modification Detection Code Packet"
	case 20:
		name = "AEAD Encrypted Data Packet"
	case 60, 61, 62, 63:
		name = "Private or Experimental Values"
	}
	return fmt.Sprintf("%s (tag %d)", name, id)
}

var subNames = [...]string{
	"Reserved", "Image Attribute", "Signature Creation Time", "Signature Expiration Time",
	"Exportable Certification", "Trust Signature", "Regular Expression", "Revocable", "Reserved",
	"Key Expiration Time", "Placeholder for backward compatibility", "Preferred Symmetric Algorithms",
	"Revocation Key", "Reserved", "Reserved", "Reserved", "Issuer", "Reserved", "Reserved", "Reserved",
	"Notation Data", "Preferred Hash Algorithms", "Preferred Compression Algorithms", "Key Server Preferences",
	"Preferred Key Server", "Primary User ID", "Policy URI", "Key Flags", "Signer's User ID",
	"Reason for Revocation", "Features", "Signature Target", "Embedded Signature", "Issuer Fingerprint",
	"Preferred AEAD Algorithms", "Intended Recipient Fingerprint", "Reserved", "Attested Certifications", "Key Block",
}

// SubName is the name of a sub-packet type octet (bit 7: critical).
func SubName(id byte) string {
	t := id & 0x7f
	name := unknown
	if int(t) < len(subNames) {
		name = subNames[t]
	} else if t >= 100 && t <= 110 {
		name = "Private or experimental"
	}
	if id >= 0x80 {
		name += " <critical>"
	}
	return fmt.Sprintf("%s (sub %d)", name, t)
}

func code(name, value string, raw byte, x *Ctx) *Node {
	return &Node{Name: name, Value: value, Dump: dump1(raw, x.Debug), Kind: "code"}
}
func pubItem(id byte, x *Ctx) *Node  { return code("Public-key Algorithm", PubName(id), id, x) }
func symItem(id byte, x *Ctx) *Node  { return code("Symmetric Algorithm", SymName(id), id, x) }
func hashItem(id byte, x *Ctx) *Node { return code("Hash Algorithm", HashName(id), id, x) }
func compItem(id byte, x *Ctx) *Node { return code("Compression Algorithm", CompName(id), id, x) }
func aeadItem(id byte, x *Ctx) *Node { return code("AEAD Algorithm", AEADName(id), id, x) }
func sigItem(id byte, x *Ctx) *Node  { return code("Signiture Type", SigName(id), id, x) }

// version classifies a version octet against the current and draft versions.
func version(v, cur, draft byte, x *Ctx) *Node {
	note := "unknown"
	switch {
	case v < cur:
		note = "old"
	case v == cur:
		note = "current"
	case draft != 0 && v == draft:
		note = "draft"
	}
	return &Node{Name: "Version", Value: fmt.Sprintf("%d", v), Note: note, Dump: dump1(v, x.Debug), Kind: "code"}
}
func keyID(b []byte) *Node {
	return &Node{Name: "Key ID", Value: fmt.Sprintf("%#016x", be64(b))}
}

type curve struct{ name, oid string }

var curves = [...]curve{
	{"nistp256 (256bits key size)", "\x2a\x86\x48\xce\x3d\x03\x01\x07"},
	{"secp256k1 (256bits key size)", "\x2b\x81\x04\x00\x0a"},
	{"nistp384 (384bits key size)", "\x2b\x81\x04\x00\x22"},
	{"nistp521 (521bits key size)", "\x2b\x81\x04\x00\x23"},
	{"brainpoolP256r1 (256bits key size)", "\x2b\x24\x03\x03\x02\x08\x01\x01\x07"},
	{"brainpoolP384r1 (384bits key size)", "\x2b\x24\x03\x03\x02\x08\x01\x01\x0b"},
	{"brainpoolP512r1 (512bits key size)", "\x2b\x24\x03\x03\x02\x08\x01\x01\x0d"},
	{"ed25519 (256bits key size)", "\x2b\x06\x01\x04\x01\xda\x47\x0f\x01"},
	{"cv25519 (256bits key size)", "\x2b\x06\x01\x04\x01\x97\x55\x01\x05\x01"},
}

// CurveName names an ECC object identifier.
func CurveName(oid []byte) string {
	for _, c := range curves {
		if string(oid) == c.oid {
			return c.name
		}
	}
	return unknown
}
