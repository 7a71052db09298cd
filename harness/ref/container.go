// Package ref is an independent implementation of the sigtool v3 formats,
// written from the format description; it shares no code with /repo.
package ref

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"fmt"
	"hash"
	"io"
	"math/big"

	"golang.org/x/crypto/curve25519"
	"golang.org/x/crypto/hkdf"
)

const (
	Magic    = "SigTool"
	Version  = 3
	FixedLen = 12
	TagLen   = 16
	TrlLen   = 64
	EOFMark  = uint32(1) << 31
)

// Wrapped is one recipient entry.
type Wrapped struct {
	DKey, Nonce []byte
}

// Header holds the decoded header fields.
type Header struct {
	Magic   []byte // 7 bytes
	Ver     byte
	Chunk   uint64
	Salt    []byte
	Pk      []byte
	Sender  []byte
	Keys    []Wrapped
	Extra   []byte // raw bytes appended to the variable header
	HasVLen bool   // if set, VLen overrides the length field
	VLen    uint32
}

func (h *Header) Clone() *Header {
	n := *h
	c := func(b []byte) []byte { return append([]byte(nil), b...) }
	n.Magic, n.Salt, n.Pk, n.Sender, n.Extra = c(h.Magic), c(h.Salt), c(h.Pk), c(h.Sender), c(h.Extra)
	n.Keys = nil
	for _, k := range h.Keys {
		n.Keys = append(n.Keys, Wrapped{c(k.DKey), c(k.Nonce)})
	}
	return &n
}

func varint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func bytesField(b []byte, num int, v []byte) []byte {
	if len(v) == 0 {
		return b
	}
	b = varint(b, uint64(num<<3|2))
	b = varint(b, uint64(len(v)))
	return append(b, v...)
}

// Var encodes the variable length header.
func (h *Header) Var() []byte {
	var b []byte
	if h.Chunk != 0 {
		b = varint(b, 1<<3)
		b = varint(b, h.Chunk)
	}
	b = bytesField(b, 2, h.Salt)
	b = bytesField(b, 3, h.Pk)
	b = bytesField(b, 4, h.Sender)
	for _, k := range h.Keys {
		var m []byte
		m = bytesField(m, 1, k.DKey)
		m = bytesField(m, 2, k.Nonce)
		b = varint(b, 5<<3|2)
		b = varint(b, uint64(len(m)))
		b = append(b, m...)
	}
	return append(b, h.Extra...)
}

// Prefix returns the fixed and variable header without the checksum.
func (h *Header) Prefix() []byte {
	v := h.Var()
	var b []byte
	b = append(b, h.Magic...)
	b = append(b, h.Ver)
	n := uint32(len(v))
	if h.HasVLen {
		n = h.VLen
	}
	b = binary.BigEndian.AppendUint32(b, n)
	return append(b, v...)
}

// Sum is the checksum over the header.
func (h *Header) Sum() []byte {
	s := sha256.Sum256(h.Prefix())
	return s[:]
}

// Bytes is the header with its checksum.
func (h *Header) Bytes() []byte {
	return append(h.Prefix(), h.Sum()...)
}

var errTrunc = errors.New("ref: truncated")

func uvarint(b []byte) (uint64, []byte, error) {
	v, n := binary.Uvarint(b)
	if n <= 0 {
		return 0, nil, errTrunc
	}
	return v, b[n:], nil
}

func parseFields(b []byte, fn func(num int, wt int, v uint64, d []byte) error) error {
	for len(b) > 0 {
		t, r, err := uvarint(b)
		if err != nil {
			return err
		}
		b = r
		switch t & 7 {
		case 0:
			v, r, err := uvarint(b)
			if err != nil {
				return err
			}
			b = r
			if err = fn(int(t>>3), 0, v, nil); err != nil {
				return err
			}
		case 2:
			n, r, err := uvarint(b)
			if err != nil {
				return err
			}
			if n > uint64(len(r)) {
				return errTrunc
			}
			if err = fn(int(t>>3), 2, 0, append([]byte(nil), r[:n]...)); err != nil {
				return err
			}
			b = r[n:]
		default:
			return fmt.Errorf("ref: wire type %d", t&7)
		}
	}
	return nil
}

// ParseHeader decodes the header at the start of b and returns its length
// including the checksum; the checksum is verified.
func ParseHeader(b []byte) (*Header, int, error) {
	if len(b) < FixedLen {
		return nil, 0, errTrunc
	}
	h := &Header{Magic: append([]byte(nil), b[:7]...), Ver: b[7]}
	if string(h.Magic) != Magic || h.Ver != Version {
		return nil, 0, errors.New("ref: bad magic/version")
	}
	n := int(binary.BigEndian.Uint32(b[8:12]))
	if n > 1048576 || len(b) < FixedLen+n+32 {
		return nil, 0, errTrunc
	}
	err := parseFields(b[12:12+n], func(num, wt int, v uint64, d []byte) error {
		switch {
		case num == 1 && wt == 0:
			h.Chunk = v
		case num == 2 && wt == 2:
			h.Salt = d
		case num == 3 && wt == 2:
			h.Pk = d
		case num == 4 && wt == 2:
			h.Sender = d
		case num == 5 && wt == 2:
			var w Wrapped
			h.Keys = append(h.Keys, w)
			p := &h.Keys[len(h.Keys)-1]
			return parseFields(d, func(num, wt int, v uint64, d []byte) error {
				switch {
				case num == 1 && wt == 2:
					p.DKey = d
				case num == 2 && wt == 2:
					p.Nonce = d
				default:
					return errors.New("ref: unknown field in wrapped key")
				}
				return nil
			})
		default:
			return errors.New("ref: unknown field in header")
		}
		return nil
	})
	if err != nil {
		return nil, 0, err
	}
	if !bytes.Equal(h.Bytes(), b[:FixedLen+n+32]) {
		return nil, 0, errors.New("ref: header not canonical or bad checksum")
	}
	return h, FixedLen + n + 32, nil
}

// --- key schedule ---

func expand(n int, secret, salt []byte, info string) []byte {
	out := make([]byte, n)
	if _, err := io.ReadFull(hkdf.New(sha512.New, secret, salt, []byte(info)), out); err != nil {
		panic(err)
	}
	return out
}

func gcm(key []byte) cipher.AEAD {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	a, err := cipher.NewGCM(b)
	if err != nil {
		panic(err)
	}
	return a
}

func h256(v ...[]byte) []byte {
	h := sha256.New()
	for _, x := range v {
		h.Write(x)
	}
	return h.Sum(nil)
}

// CurveSK converts an Ed25519 seed to an X25519 scalar.
func CurveSK(seed []byte) []byte {
	h := sha512.Sum512(seed)
	return h[:32] // X25519 clamps
}

var p25519, _ = new(big.Int).SetString("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", 16)

// CurvePK converts an Ed25519 public key to an X25519 public key.
func CurvePK(pk []byte) []byte {
	le := make([]byte, 32)
	for i := range pk {
		le[31-i] = pk[i]
	}
	le[0] &= 0x7f
	y := new(big.Int).SetBytes(le)
	one := big.NewInt(1)
	num := new(big.Int).Add(one, y)
	den := new(big.Int).Sub(one, y)
	den.Mod(den, p25519)
	if den.Sign() == 0 {
		return make([]byte, 32)
	}
	den.ModInverse(den, p25519)
	u := num.Mul(num, den)
	u.Mod(u, p25519)
	out := make([]byte, 32)
	u.FillBytes(out)
	for i := 0; i < 16; i++ {
		out[i], out[31-i] = out[31-i], out[i]
	}
	return out
}

func wrapKEK(shared, salt, rnd []byte) (kek, nonce []byte) {
	b := expand(32+12, shared, h256(salt, rnd), "Receiver Key")
	return b[:32], b[32:]
}

// Wrap makes the recipient entry for Ed25519 public key pk.
func Wrap(root, ephSK, salt, pk []byte) (Wrapped, error) {
	s, err := curve25519.X25519(ephSK, CurvePK(pk))
	if err != nil {
		return Wrapped{}, err
	}
	rnd := Rand(12)
	kek, nonce := wrapKEK(s, salt, rnd)
	return Wrapped{gcm(kek).Seal(nil, nonce, root, pk), rnd}, nil
}

// Unwrap returns the file key for the Ed25519 private key, or nil.
func (h *Header) Unwrap(sk ed25519.PrivateKey) []byte {
	s, err := curve25519.X25519(CurveSK(sk.Seed()), h.Pk)
	if err != nil {
		return nil
	}
	pk := []byte(sk.Public().(ed25519.PublicKey))
	for _, w := range h.Keys {
		kek, nonce := wrapKEK(s, h.Salt, w.Nonce)
		if root, err := gcm(kek).Open(nil, nonce, w.DKey, pk); err == nil {
			return root
		}
	}
	return nil
}

// Unwraps tells which entries open with sk.
func (h *Header) Unwraps(sk ed25519.PrivateKey) (v []int) {
	for i := range h.Keys {
		n := *h
		n.Keys = h.Keys[i : i+1]
		if n.Unwrap(sk) != nil {
			v = append(v, i)
		}
	}
	return v
}

func senderAE(root, salt []byte) (cipher.AEAD, []byte) {
	b := expand(32+12, root, salt, "Sender Sig")
	return gcm(b[:32]), b[32:]
}

// SealSender makes the sender field holding sig (64 zero bytes: none).
func SealSender(root, salt, sig []byte) []byte {
	a, n := senderAE(root, salt)
	return a.Seal(nil, n, sig, nil)
}

// OpenSender returns the signature in the sender field.
func (h *Header) OpenSender(root []byte) ([]byte, error) {
	a, n := senderAE(root, h.Salt)
	return a.Open(nil, n, h.Sender, nil)
}

// SenderMsg is the message the sender signs.
func SenderMsg(pk, salt, root []byte) []byte {
	return h256([]byte(Magic), []byte{Version}, pk, salt, root)
}

// Keys are the derived data keys.
type Keys struct {
	Nonce, DKey, HKey []byte
	ae                cipher.AEAD
}

// DataKeys derives the data keys from the file key and header checksum.
func DataKeys(root, sum []byte) *Keys {
	b := expand(32+32+12, root, sum, "Data Key Expansion")
	k := &Keys{Nonce: b[:12], DKey: b[12:44], HKey: b[44:]}
	k.ae = gcm(k.DKey)
	return k
}

func (k *Keys) nonce(i uint32) []byte {
	n := append([]byte(nil), k.Nonce...)
	binary.BigEndian.PutUint32(n[:4], i)
	return n
}

// LenWord encodes a chunk length and end mark.
func LenWord(n uint32, eof bool) []byte {
	if eof {
		n |= EOFMark
	}
	return binary.BigEndian.AppendUint32(nil, n)
}

// Seal encrypts block i.
func (k *Keys) Seal(i uint32, eof bool, pt []byte) (lw, box []byte) {
	lw = LenWord(uint32(len(pt)), eof)
	return lw, k.ae.Seal(nil, k.nonce(i), pt, lw)
}

// Open decrypts block i.
func (k *Keys) Open(i uint32, lw, box []byte) ([]byte, error) {
	return k.ae.Open(nil, k.nonce(i), box, lw)
}

// Mac returns the running HMAC.
func (k *Keys) Mac() hash.Hash { return hmac.New(sha256.New, k.HKey) }

// Seg is one block as found in a file.
type Seg struct {
	LW  []byte // length word
	Box []byte // ciphertext and tag
}

// File is a parsed encrypted file.
type File struct {
	H    *Header
	Sum  []byte
	Segs []Seg
	Trl  []byte
	Tail []byte
}

// Bytes serialises the file.
func (f *File) Bytes() []byte {
	b := append([]byte(nil), f.H.Prefix()...)
	b = append(b, f.Sum...)
	for _, s := range f.Segs {
		b = append(b, s.LW...)
		b = append(b, s.Box...)
	}
	b = append(b, f.Trl...)
	return append(b, f.Tail...)
}

// Split parses a well formed encrypted file into its parts without keys.
func Split(b []byte) (*File, error) {
	h, n, err := ParseHeader(b)
	if err != nil {
		return nil, err
	}
	f := &File{H: h, Sum: append([]byte(nil), b[n-32:n]...)}
	b = b[n:]
	for {
		if len(b) < 4 {
			return f, errTrunc
		}
		w := binary.BigEndian.Uint32(b)
		m := int(w&(EOFMark-1)) + TagLen
		if len(b) < 4+m {
			return f, errTrunc
		}
		f.Segs = append(f.Segs, Seg{append([]byte(nil), b[:4]...), append([]byte(nil), b[4:4+m]...)})
		b = b[4+m:]
		if w&EOFMark != 0 {
			break
		}
	}
	if len(b) < TrlLen {
		return f, errTrunc
	}
	f.Trl = append([]byte(nil), b[:TrlLen]...)
	f.Tail = append([]byte(nil), b[TrlLen:]...)
	return f, nil
}

// Info is what a strict decryption found.
type Info struct {
	Plain  []byte
	Sizes  []int // plaintext length of each block
	Signed bool
	Root   []byte
}

// Decrypt strictly decrypts b with recipient key sk, and sender's public
// key (nil: do not check the sender).
func Decrypt(b []byte, sk ed25519.PrivateKey, sender ed25519.PublicKey) (*Info, error) {
	f, err := Split(b)
	if err != nil {
		return nil, err
	}
	if len(f.Tail) != 0 {
		return nil, errors.New("ref: trailing bytes")
	}
	h := f.H
	if len(h.Salt) != 32 || len(h.Pk) != 32 || len(h.Sender) != 80 || h.Chunk == 0 || h.Chunk > 1<<30 || len(h.Keys) == 0 {
		return nil, errors.New("ref: bad header field")
	}
	for _, k := range h.Keys {
		if len(k.DKey) != 48 || len(k.Nonce) != 12 {
			return nil, errors.New("ref: bad wrapped key")
		}
	}
	root := h.Unwrap(sk)
	if root == nil {
		return nil, errors.New("ref: no entry for this key")
	}
	in := &Info{Root: root}
	sig, err := h.OpenSender(root)
	if err != nil {
		return nil, fmt.Errorf("ref: sender field: %w", err)
	}
	if len(sig) != 64 {
		return nil, errors.New("ref: sender field size")
	}
	in.Signed = !bytes.Equal(sig, make([]byte, 64))
	if in.Signed && sender != nil && !VerifyMsg(sender, SenderMsg(h.Pk, h.Salt, root), sig) {
		return nil, errors.New("ref: sender signature")
	}
	k := DataKeys(root, f.Sum)
	mac := k.Mac()
	for i, s := range f.Segs {
		pt, err := k.Open(uint32(i), s.LW, s.Box)
		if err != nil {
			return nil, fmt.Errorf("ref: block %d: %w", i, err)
		}
		if uint64(len(pt)) > h.Chunk {
			return nil, fmt.Errorf("ref: block %d too large", i)
		}
		last := i == len(f.Segs)-1
		if !last && uint64(len(pt)) != h.Chunk {
			return nil, fmt.Errorf("ref: block %d is not full", i)
		}
		mac.Write(s.LW)
		mac.Write(pt)
		in.Plain = append(in.Plain, pt...)
		in.Sizes = append(in.Sizes, len(pt))
	}
	if in.Signed && sender != nil && !VerifyMsg(sender, mac.Sum(nil), f.Trl) {
		return nil, errors.New("ref: trailer signature")
	}
	return in, nil
}

// Spec describes a file to make.
type Spec struct {
	Chunk  uint64
	Sender ed25519.PrivateKey // nil: none
	To     []ed25519.PublicKey
	// EmptyLast: end with an empty block when the plaintext is a positive
	// multiple of the block size (as the file interface does), otherwise
	// the last full block carries the end mark (as the stream does).
	EmptyLast bool
}

// Encrypt makes an encrypted file.
func Encrypt(sp Spec, pt []byte) ([]byte, []byte, error) {
	eph := Rand(32)
	epk, err := curve25519.X25519(eph, curve25519.Basepoint)
	if err != nil {
		return nil, nil, err
	}
	root := Rand(32)
	h := &Header{Magic: []byte(Magic), Ver: Version, Chunk: sp.Chunk, Salt: Rand(32), Pk: epk}
	sig := make([]byte, 64)
	if sp.Sender != nil {
		sig = SignMsg(sp.Sender, SenderMsg(h.Pk, h.Salt, root))
	}
	h.Sender = SealSender(root, h.Salt, sig)
	for _, t := range sp.To {
		w, err := Wrap(root, eph, h.Salt, t)
		if err != nil {
			return nil, nil, err
		}
		h.Keys = append(h.Keys, w)
	}
	f := &File{H: h, Sum: h.Sum()}
	f.Fill(root, pt, sp.EmptyLast)
	f.Trl = Rand(64)
	if sp.Sender != nil {
		f.Trl = SignMsg(sp.Sender, f.MacOf(root))
	}
	return f.Bytes(), root, nil
}

// Fill sets the blocks of f to the encryption of pt.
func (f *File) Fill(root, pt []byte, emptyLast bool) {
	k := DataKeys(root, f.Sum)
	f.Segs = nil
	z := int(f.H.Chunk)
	for i := uint32(0); ; i++ {
		n := min(z, len(pt))
		eof := n == len(pt)
		if emptyLast && n == z {
			eof = false
		}
		lw, box := k.Seal(i, eof, pt[:n])
		f.Segs = append(f.Segs, Seg{lw, box})
		pt = pt[n:]
		if eof {
			return
		}
	}
}

// MacOf computes the running HMAC over the (openable) blocks of f.
func (f *File) MacOf(root []byte) []byte {
	k := DataKeys(root, f.Sum)
	m := k.Mac()
	for i, s := range f.Segs {
		pt, err := k.Open(uint32(i), s.LW, s.Box)
		if err == nil {
			m.Write(s.LW)
			m.Write(pt)
		}
	}
	return m.Sum(nil)
}

// SignMsg signs a message the way sigtool does.
func SignMsg(sk ed25519.PrivateKey, msg []byte) []byte {
	h := sha512.New()
	h.Write([]byte("sigtool signed message"))
	h.Write(msg)
	return ed25519.Sign(sk, h.Sum(nil))
}

// VerifyMsg verifies a message signature.
func VerifyMsg(pk ed25519.PublicKey, msg, sig []byte) bool {
	h := sha512.New()
	h.Write([]byte("sigtool signed message"))
	h.Write(msg)
	return ed25519.Verify(pk, h.Sum(nil), sig)
}

// FileDigest is the digest sigtool signs for a file.
func FileDigest(b []byte) []byte {
	h := sha512.New()
	h.Write(b)
	var z [8]byte
	binary.BigEndian.PutUint64(z[:], uint64(len(b)))
	h.Write(z[:])
	return h.Sum(nil)
}

// Rand returns n random bytes.
func Rand(n int) []byte {
	b := make([]byte, n)
	if _, err := io.ReadFull(rand.Reader, b); err != nil {
		panic(err)
	}
	return b
}

// SealLW encrypts a block under the given length word.
func (k *Keys) SealLW(i uint32, lw, pt []byte) ([]byte, []byte) {
	return lw, k.ae.Seal(nil, k.nonce(i), pt, lw)
}

// SHA256 of b.
func SHA256(b []byte) []byte { s := sha256.Sum256(b); return s[:] }

// UnwrapShared opens an entry given the shared secret.
func (h *Header) UnwrapShared(shared, pk []byte) []byte {
	for _, w := range h.Keys {
		kek, nonce := wrapKEK(shared, h.Salt, w.Nonce)
		if root, err := gcm(kek).Open(nil, nonce, w.DKey, pk); err == nil {
			return root
		}
	}
	return nil
}

// UnwrapKEK opens an entry given its key, with a few nonces.
func (h *Header) UnwrapKEK(kek, pk []byte) []byte {
	a := gcm(kek)
	for _, w := range h.Keys {
		for _, nonce := range [][]byte{w.Nonce, make([]byte, 12)} {
			if root, err := a.Open(nil, nonce, w.DKey, pk); err == nil {
				return root
			}
		}
	}
	return nil
}
